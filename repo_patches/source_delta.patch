From be75d4a46e4976c6b8eb8864d019eeffb30ec7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 01/50] fix: decode_align reports an error when the data ends
 inside the padding

---
 codecs/src/aper/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 2b0cdcd..0d27411 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -64,6 +64,12 @@ impl AperCodecData {
         let remaining = 8 - (self.decode_offset & 0x7_usize);
         log::debug!("Aligning Codec Buffer with {} bits", remaining);
 
+        if self.bits.len() - self.decode_offset < remaining {
+            return Err(AperCodecError::new(
+                "AperCodec:DecodeError:End of Bitstream reached while trying to align.",
+            ));
+        }
+
         if !self.bits[self.decode_offset..self.decode_offset + remaining]
             .iter()
             .all(|b| b == false)
-- 
2.43.0


From 10f9f485f7f74e0c4cf5c26044e44eb6c46fb04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 02/50] fix: decode_bits_as_integer refuses more than 128 bits
 instead of panicking

---
 codecs/src/aper/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 0d27411..f9f44d0 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -105,7 +105,15 @@ impl AperCodecData {
         signed: bool,
     ) -> Result<i128, AperCodecError> {
         let remaining = self.bits.len() - self.decode_offset;
-        if remaining < bits {
+        if bits > 128 {
+            Err(AperCodecError::new(
+                format!(
+                    "AperCodec:DecodeError:Requested Bits to decode {}, at most 128 supported",
+                    bits
+                )
+                .as_str(),
+            ))
+        } else if remaining < bits {
             Err(AperCodecError::new(
                 format!(
                     "AperCodec:DecodeError:Requested Bits to decode {}, Remaining bits {}",
-- 
2.43.0


From 36122c195cf1e8466907942d78a25d568d451c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 03/50] fix: unsigned 128 bit values above i128::MAX are
 refused, not decoded as negative

---
 codecs/src/aper/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index f9f44d0..bd5c8f8 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -131,8 +131,14 @@ impl AperCodecData {
                 if bits == 0 {
                     0_i128
                 } else {
-                    self.bits[self.decode_offset..self.decode_offset + bits].load_be::<u128>()
-                        as i128
+                    let inner = self.bits[self.decode_offset..self.decode_offset + bits]
+                        .load_be::<u128>();
+                    <i128 as std::convert::TryFrom<u128>>::try_from(inner).map_err(|_| {
+                        AperCodecError::new(format!(
+                            "AperCodec:DecodeError:Value {} does not fit the supported range.",
+                            inner
+                        ))
+                    })?
                 }
             } else {
                 match bits {
-- 
2.43.0


From 66b57272a37f0d6644cf654ffd01d5d3500189a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 04/50] fix: decoding a 7 octet integer no longer prints to
 standard error

---
 codecs/src/aper/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index bd5c8f8..0ff2eda 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -194,7 +194,6 @@ impl AperCodecData {
                         inner as i128
                     }
                     56 => {
-                        eprintln!("{}", self.decode_offset);
                         let inner = self.bits[self.decode_offset..self.decode_offset + bits]
                             .load_be::<u64>() as u64;
                         let inner = if self.bits[self.decode_offset] {
-- 
2.43.0


From c9ab11e11f03b3b4cf3b85ab053ff6933faf67fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 05/50] fix: decode unconstrained integers of 9 to 15 octets
 that the encoder emits

---
 codecs/src/aper/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 0ff2eda..9c7d1f1 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -210,6 +210,17 @@ impl AperCodecData {
                             .load_be::<u128>() as i64;
                         inner as i128
                     }
+                    72 | 80 | 88 | 96 | 104 | 112 | 120 => {
+                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
+                            .load_be::<u128>();
+                        let inner = if self.bits[self.decode_offset] {
+                            // Bit is 1 negative no.
+                            inner | (u128::MAX << bits)
+                        } else {
+                            inner
+                        };
+                        inner as i128
+                    }
                     128 => {
                         let inner = self.bits[self.decode_offset..self.decode_offset + bits]
                             .load_be::<u128>() as i128;
-- 
2.43.0


From 0051ce85e96bd9851d611656814c39598367639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 06/50] fix: semi constrained decode reports an error instead
 of overflowing

---
 codecs/src/aper/decode/decode_internal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 3632214..3852b49 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -152,7 +152,12 @@ pub(super) fn decode_semi_constrained_whole_number(
     let bits = length * 8;
     let val = data.decode_bits_as_integer(bits, false)?;
 
-    Ok(val + lb)
+    val.checked_add(lb).ok_or_else(|| {
+        AperCodecError::new(format!(
+            "Value {} above lower bound {} does not fit the supported integer range.",
+            val, lb
+        ))
+    })
 }
 
 // Decode a 'constrained' whole number where both `lb` and `ub` are available.
-- 
2.43.0


From 2bb0e409794beabd4fb62e84a57dc0abee095979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 07/50] fix: decoded values above the upper bound of the
 constraint are an error

---
 codecs/src/aper/decode/decode_internal.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 3852b49..afada9e 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -203,6 +203,13 @@ pub(super) fn decode_constrained_whole_number(
             data.decode_bits_as_integer(length * 8, false)?
         };
 
+        if value >= range {
+            return Err(AperCodecError::new(format!(
+                "Decoded value is outside the constraint {}..{}.",
+                lb, ub
+            )));
+        }
+
         Ok(value + lb)
     }
 }
-- 
2.43.0


From 555d2f258cc2f502bd72a530527f1e4fb1f39d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 08/50] fix: value equal to the lower bound of a large range is
 encoded in one zero octet

---
 codecs/src/aper/encode/encode_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index c944c7d..41f9ed4 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -93,7 +93,7 @@ pub(super) fn encode_constrained_whole_number(
     } else {
         let bytes_needed_for_range = crate::aper::bytes_needed_for_range(range) as i128;
         let bytes = value.to_be_bytes();
-        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(16);
+        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
         encode_constrained_whole_number(
             data,
             1,
-- 
2.43.0


From 18b1c837be57f4c773675cc71cb0c2a9fa893571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 09/50] fix: length of a large constrained integer is bounded
 by the octets of range - 1

---
 codecs/src/aper/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 9c7d1f1..62ae3d5 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -401,8 +401,9 @@ impl AperCodecData {
     }
 }
 
+// Number of octets needed to hold the largest offset from the lower bound (`range` - 1).
 fn bytes_needed_for_range(range: i128) -> u8 {
-    let bits_needed: u8 = 128 - range.leading_zeros() as u8;
+    let bits_needed: u8 = 128 - (range - 1).leading_zeros() as u8;
     let mut bytes_needed = bits_needed / 8;
     if bits_needed % 8 != 0 {
         bytes_needed += 1
-- 
2.43.0


From 4d2f8cc75d413755162b5294af581dee83ebd992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 10/50] fix: a bounded length of 16384 or more is not a
 fragment

---
 codecs/src/aper/decode/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 3b2d7b8..536d24f 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -225,8 +225,10 @@ pub fn decode_bitstring(
             bv.extend(data.get_bitvec(length)?);
         }
 
-        // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        // Fragmented So get the chunks in multiples of 16384, (only when the length is not bounded
+        // by the constraint)
+        let fragmented = is_extended || ub.map_or(true, |ub| ub >= 65_536);
+        if fragmented && length >= 16384 {
             continue;
         } else {
             break;
@@ -275,8 +277,10 @@ pub fn decode_octetstring(
             octets.extend(data.get_bytes(length)?);
         }
 
-        // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        // Fragmented So get the chunks in multiples of 16384, (only when the length is not bounded
+        // by the constraint)
+        let fragmented = is_extended || ub.map_or(true, |ub| ub >= 65_536);
+        if fragmented && length >= 16384 {
             continue;
         } else {
             break;
-- 
2.43.0


From 5324ad1f852e1a847d15bcf91f7983f97e8963f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 11/50] fix: decode all fragments of a character string

---
 codecs/src/aper/decode/decode_charstrings.rs | 35 ++++++++++++--------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 96fbcc6..0b61e56 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -70,22 +70,29 @@ fn decode_string(
         false
     };
 
-    let length = if is_extended {
-        decode_length_determinent(data, None, None, false)?
-    } else {
-        decode_length_determinent(data, lb, ub, false)?
-    };
-
     let num_bits = 8;
-    let length = length * num_bits;
-    if length > 16 {
-        data.decode_align()?;
+    let mut bytes = Vec::<u8>::new();
+    loop {
+        let chars = if is_extended {
+            decode_length_determinent(data, None, None, false)?
+        } else {
+            decode_length_determinent(data, lb, ub, false)?
+        };
+
+        let length = chars * num_bits;
+        if length > 16 {
+            data.decode_align()?;
+        }
+        let bits = data.get_bitvec(length)?;
+        bytes.extend(bits.chunks_exact(num_bits).map(|c| c.load::<u8>()));
+
+        // Fragmented So get the chunks in multiples of 16384, (only when the length is not bounded
+        // by the constraint)
+        let fragmented = is_extended || ub.map_or(true, |ub| ub >= 65_536);
+        if !(fragmented && chars >= 16384) {
+            break;
+        }
     }
-    let bits = data.get_bitvec(length)?;
-    let bytes = bits
-        .chunks_exact(num_bits)
-        .map(|c| c.load::<u8>())
-        .collect::<Vec<u8>>();
 
     data.dump();
 
-- 
2.43.0


From 2c23c8310b1bd7bcf9b33f19c42ec73e95455bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 12/50] fix: semi constrained integers are encoded as unsigned
 offsets

---
 codecs/src/aper/encode/encode_internal.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 41f9ed4..20aac6b 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -41,7 +41,19 @@ pub(super) fn encode_semi_constrained_whole_number(
         )));
     }
 
-    encode_unconstrained_whole_number(data, value - lb)
+    let offset = value.checked_sub(lb).ok_or_else(|| {
+        AperCodecError::new(format!(
+            "Cannot encode integer {} - too far above lower bound {}",
+            value, lb,
+        ))
+    })?;
+
+    // The offset is never negative, so it is encoded without a sign bit.
+    let bytes = offset.to_be_bytes();
+    let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
+    encode_length_determinent(data, None, None, false, 16 - first_non_zero)?;
+    data.append_bits(bytes[first_non_zero..16].view_bits());
+    Ok(())
 }
 
 pub(super) fn encode_constrained_whole_number(
-- 
2.43.0


From fd1a4b2d971472c401f79ca2f9036bdb8ee30ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 13/50] fix: normally small lengths: zero is an error and up to
 64 is small

---
 codecs/src/aper/encode/encode_internal.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 20aac6b..f89d358 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -141,7 +141,13 @@ pub(super) fn encode_normally_small_length_determinent(
     data: &mut AperCodecData,
     value: usize,
 ) -> Result<(), AperCodecError> {
-    if value <= 32 {
+    if value == 0 {
+        return Err(AperCodecError::new(
+            "A normally small length determinent cannot be zero",
+        ));
+    }
+
+    if value <= 64 {
         let byte = (value - 1) as u8;
         data.encode_bool(false);
         data.append_bits(&byte.view_bits::<Msb0>()[2..8]);
-- 
2.43.0


From f18bd31c961fb3019138545a46435c16ae183c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 14/50] fix: an empty encoding takes one zero octet when put in
 an open type

---
 codecs/src/aper/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 62ae3d5..79a3e6a 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -389,13 +389,17 @@ impl AperCodecData {
     /// Get the length of the data in bytes
     /// This is useful when encoding an open type.
     pub fn length_in_bytes(&self) -> usize {
-        ((self.bits.len() - 1) / 8) + 1
+        // Even an empty encoding occupies one (zero) octet (X.691 10.1.3).
+        std::cmp::max(1, (self.bits.len() + 7) / 8)
     }
 
     /// Append one encoding to another preserving byte alignment.
     /// This is useful when encoding an open type.
     pub fn append_aligned(&mut self, other: &mut Self) {
         self.align();
+        if other.bits.is_empty() {
+            other.bits.resize(8, false);
+        }
         other.align();
         self.append_bits(&other.bits)
     }
-- 
2.43.0


From 013ab48ba446e9dbb0229247548c5c780c884fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 15/50] fix: SEQUENCE OF: encode and decode the size extension
 bit

---
 codecs_derive/src/aper/seqof.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index 8d5049c..07e7dda 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -43,7 +43,16 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext)?;
+                let extended = if #sz_ext {
+                    asn1_codecs::aper::decode::decode_bool(data)?
+                } else {
+                    false
+                };
+                let length = if extended {
+                    asn1_codecs::aper::decode::decode_length_determinent(data, None, None, false)?
+                } else {
+                    asn1_codecs::aper::decode::decode_length_determinent(data, #sz_lb, #sz_ub, false)?
+                };
 
                 let mut items = vec![];
                 let mut count = 0;
@@ -61,7 +70,10 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn encode(&self, data:&mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
-                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext, self.0.len());
+                if #sz_ext {
+                    asn1_codecs::aper::encode::encode_bool(data, false)?;
+                }
+                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, false, self.0.len());
 
                 for elem in &self.0 {
                     let _ = elem.encode(data)?;
-- 
2.43.0


From c3003885c24baaf225c5244d2abfd9e733a69bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 16/50] fix: SEQUENCE OF: an illegal length is reported when
 encoding

---
 codecs_derive/src/aper/seqof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index 07e7dda..114ab02 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -73,7 +73,7 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
                 if #sz_ext {
                     asn1_codecs::aper::encode::encode_bool(data, false)?;
                 }
-                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, false, self.0.len());
+                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, false, self.0.len())?;
 
                 for elem in &self.0 {
                     let _ = elem.encode(data)?;
-- 
2.43.0


From 75e350841e250bb5c02d49381cd31cf3835636ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 17/50] fix: SEQUENCE OF: decode an empty list

---
 codecs_derive/src/aper/seqof.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index 114ab02..c4a12b8 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -55,13 +55,8 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
                 };
 
                 let mut items = vec![];
-                let mut count = 0;
-                loop {
+                for _ in 0..length {
                     items.push(#ty::decode(data)?);
-                    count += 1;
-                    if count == length {
-                        break;
-                    }
                 }
 
                 Ok(Self(items))
-- 
2.43.0


From 0a727eb981cb1e80f12933c68754b9232fc9ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 18/50] fix: INTEGER and ENUMERATED decode refuses values that
 do not fit the type

---
 codecs_derive/src/aper/enumerated.rs | 5 ++++-
 codecs_derive/src/aper/integer.rs    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/enumerated.rs b/codecs_derive/src/aper/enumerated.rs
index 80b26d9..1d8498c 100644
--- a/codecs_derive/src/aper/enumerated.rs
+++ b/codecs_derive/src/aper/enumerated.rs
@@ -44,7 +44,10 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
 
                 let decoded = asn1_codecs::aper::decode::decode_enumerated(data, #lb, #ub, #ext)?;
 
-                Ok(Self(decoded.0 as #ty))
+                let value = <#ty as core::convert::TryFrom<i128>>::try_from(decoded.0).map_err(|_| {
+                    asn1_codecs::aper::AperCodecError::new("Decoded ENUMERATED does not fit the type.")
+                })?;
+                Ok(Self(value))
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
diff --git a/codecs_derive/src/aper/integer.rs b/codecs_derive/src/aper/integer.rs
index 8dc44d9..5a2e999 100644
--- a/codecs_derive/src/aper/integer.rs
+++ b/codecs_derive/src/aper/integer.rs
@@ -43,7 +43,10 @@ pub(super) fn generate_aper_codec_for_asn_integer(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_integer(data, #lb, #ub, #ext)?;
-                Ok(Self(decoded.0 as #ty))
+                let value = <#ty as core::convert::TryFrom<i128>>::try_from(decoded.0).map_err(|_| {
+                    asn1_codecs::aper::AperCodecError::new("Decoded INTEGER does not fit the type.")
+                })?;
+                Ok(Self(value))
             }
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
-- 
2.43.0


From bd2c25be7b3c797df30f273996849b709c71a127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 19/50] fix: ENUMERATED additions are refused instead of
 decoded as root values

---
 codecs_derive/src/aper/enumerated.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codecs_derive/src/aper/enumerated.rs b/codecs_derive/src/aper/enumerated.rs
index 1d8498c..b097d54 100644
--- a/codecs_derive/src/aper/enumerated.rs
+++ b/codecs_derive/src/aper/enumerated.rs
@@ -43,6 +43,9 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_enumerated(data, #lb, #ub, #ext)?;
+                if decoded.1 {
+                    return Err(asn1_codecs::aper::AperCodecError::new("ENUMERATED Additions not supported yet."));
+                }
 
                 let value = <#ty as core::convert::TryFrom<i128>>::try_from(decoded.0).map_err(|_| {
                     asn1_codecs::aper::AperCodecError::new("Decoded ENUMERATED does not fit the type.")
-- 
2.43.0


From 8373feac5906f59208bf1b13330258929e7c6884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 20/50] fix: open types are decoded from exactly the octets of
 their length

---
 codecs_derive/src/aper/open.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 8205f6a..1693e7b 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -40,9 +40,9 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, None, None, false)?;
+                let bytes = asn1_codecs::aper::decode::decode_octetstring(data, None, None, false)?;
 
-                log::trace!("open type: decoded length: {}", length);
+                log::trace!("open type: decoded length: {}", bytes.len());
 
                 if data.get_key().is_none() {
                     return Err(asn1_codecs::aper::AperCodecError::new("Decoding OPEN Type, but `key` is not determined!"));
@@ -50,6 +50,9 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
 
                 let key = data.get_key().unwrap();
 
+                let mut inner = asn1_codecs::aper::AperCodecData::from_slice(&bytes);
+                inner.set_key(key);
+
                 match key {
                     #(#variant_decode_tokens)*
                     _ => Err(asn1_codecs::aper::AperCodecError::new(format!("Key {} Not Found", key).as_str()))
@@ -95,7 +98,7 @@ fn generate_open_type_variant_tokens_using_attrs(
                             let unnamed = unnamed.as_ref().unwrap();
                             let ty = &unnamed.ty;
                             let variant_decode_token = quote! {
-                                #key => Ok(Self::#variant_ident(#ty::decode(data)?)),
+                                #key => Ok(Self::#variant_ident(#ty::decode(&mut inner)?)),
                             };
                             let variant_encode_token = quote! {
                                 Self::#variant_ident(ref v) => v.encode(&mut inner)?,
-- 
2.43.0


From 09cdaa2e203755000dc9473a2f674e7febb69400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 21/50] fix: deriving an open type for a struct or unit variant
 is an error

---
 codecs_derive/src/aper/open.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 1693e7b..eafd6d1 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -111,10 +111,20 @@ fn generate_open_type_variant_tokens_using_attrs(
                                 "Unsupported variant type".to_string(),
                             ));
                         }
+                    } else {
+                        errors.push(syn::Error::new_spanned(
+                            variant,
+                            "Unsupported variant type".to_string(),
+                        ));
                     }
                 }
             }
         }
+    } else {
+        errors.push(syn::Error::new_spanned(
+            ast,
+            format!("{} Should be an Enum.", ast.ident),
+        ));
     }
 
     if let Some((first, others)) = errors.split_first_mut() {
-- 
2.43.0


From 54165b91c56a99cc12ec8ba954a74845a7d07935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:17 +0000
Subject: [PATCH 22/50] fix: short character strings that start inside an octet
 are decoded correctly

---
 codecs/src/aper/decode/decode_charstrings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 0b61e56..d6d6e54 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -84,7 +84,7 @@ fn decode_string(
             data.decode_align()?;
         }
         let bits = data.get_bitvec(length)?;
-        bytes.extend(bits.chunks_exact(num_bits).map(|c| c.load::<u8>()));
+        bytes.extend(bits.chunks_exact(num_bits).map(|c| c.load_be::<u8>()));
 
         // Fragmented So get the chunks in multiples of 16384, (only when the length is not bounded
         // by the constraint)
-- 
2.43.0


From 941e3d730217ceb661bcb64bcf9c4a797de88291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:47 +0000
Subject: [PATCH 23/50] fix: an integer above an upper bound without a lower
 bound is refused when encoding

---
 codecs/src/aper/encode/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 736338f..39cdd72 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -106,6 +106,12 @@ pub fn encode_integer(
     }
 
     let _ = match (lb, ub) {
+        (None, Some(ub)) if value > ub => {
+            return Err(AperCodecError::new(format!(
+                "Cannot encode integer {} - greater than upper bound {}",
+                value, ub,
+            )));
+        }
         (None, _) => encode_unconstrained_whole_number(data, value)?,
         (Some(lb), None) => encode_semi_constrained_whole_number(data, lb, value)?,
         (Some(lb), Some(ub)) => encode_constrained_whole_number(data, lb, ub, value)?,
-- 
2.43.0


From 24f26f1893d7c7cdc8e4646d0518371adee620b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:14 +0000
Subject: [PATCH 24/50] fix: an index of the root of a CHOICE is never decoded
 as an alternative from the additions

---
 codecs_derive/src/aper/choice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/choice.rs b/codecs_derive/src/aper/choice.rs
index 4706881..dd1c521 100644
--- a/codecs_derive/src/aper/choice.rs
+++ b/codecs_derive/src/aper/choice.rs
@@ -91,7 +91,11 @@ fn generate_choice_variant_decode_tokens_using_attrs(
                                     v.encode(data)
                                 }
                             };
-                            decode_tokens.push(variant_decode_token);
+                            // The keys of the extension additions are numbered on their own, an
+                            // index of the root never denotes one of them.
+                            if !extended.map_or(false, |e| e.value()) {
+                                decode_tokens.push(variant_decode_token);
+                            }
                             encode_tokens.push(variant_encode_token);
                         } else {
                             errors.push(syn::Error::new_spanned(
-- 
2.43.0


From 01e8f5042fdab3cdb7ed42d24d362b2420d9e12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:39 +0000
Subject: [PATCH 25/50] fix: tokenizer indexes past the end when '-', '[' or
 ']' is the last character

---
 asn-compiler/src/tokenizer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 2164273..c06e50d 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -690,12 +690,12 @@ fn get_seq_extension_or_square_brackets_token(
     begin: usize,
 ) -> Result<(Token, usize), Error> {
     let (token_type, consumed) = if chars[0] == '[' {
-        if chars[1] == '[' {
+        if chars.len() > 1 && chars[1] == '[' {
             (TokenType::AdditionGroupsBegin, 2)
         } else {
             (TokenType::SquareBegin, 1)
         }
-    } else if chars[1] == ']' {
+    } else if chars.len() > 1 && chars[1] == ']' {
         (TokenType::AdditionGroupsEnd, 2)
     } else {
         (TokenType::SquareEnd, 1)
@@ -753,7 +753,7 @@ fn get_maybe_comment_token(
     line: usize,
     begin: usize,
 ) -> Result<(Option<Token>, usize), Error> {
-    if chars[1] != '-' {
+    if chars.len() == 1 || chars[1] != '-' {
         return Ok((None, 0));
     }
     let mut consumed = 2; // initial "--"
-- 
2.43.0


From 0f84957d49116d8ed02659c25c7982e482319806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:39 +0000
Subject: [PATCH 26/50] fix: tokenizing an empty input panics

---
 asn-compiler/src/tokenizer/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index c06e50d..a2132c0 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -814,7 +814,7 @@ where
     let mut column = 0_usize;
     let mut processed = 0;
     let total_read = chars.len();
-    loop {
+    while processed < total_read {
         let c = chars[processed];
         match c {
             ' ' | '\t' => {
@@ -925,9 +925,6 @@ where
                 );
             }
         }
-        if processed == total_read {
-            break;
-        }
     }
     Ok(tokens)
 }
-- 
2.43.0


From 1b01c4fcaa0d0487bd09b1f2d0d0875fb5fa2b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:39 +0000
Subject: [PATCH 27/50] fix: tokenizer panics on a character that cannot start
 a token

---
 asn-compiler/src/tokenizer/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index a2132c0..67075b9 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -918,11 +918,9 @@ where
             '\u{feff}' => {
                 processed += 1;
             }
+            // Unsupported first character for a token.
             _ => {
-                panic!(
-                    "Unsupported First character for a token: '{:?}'. Line: {}, Column: {}",
-                    chars[processed], line, column
-                );
+                return Err(Error::TokenizeError(22, line, column));
             }
         }
     }
-- 
2.43.0


From 3aaf806d32203db08d1d0eb54229a686be317016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:39 +0000
Subject: [PATCH 28/50] fix: tokenizer panics when the input cannot be read or
 is not UTF-8

---
 asn-compiler/src/tokenizer/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 67075b9..e339728 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -808,8 +808,10 @@ where
     let mut line = 1;
     let mut tokens: Vec<Token> = Vec::new();
     let mut buffer = Vec::new();
-    let _ = input.read_to_end(&mut buffer).unwrap();
-    let buffer = String::from_utf8(buffer).unwrap();
+    let _ = input
+        .read_to_end(&mut buffer)
+        .map_err(|_| Error::TokenizeError(23, 0, 0))?;
+    let buffer = String::from_utf8(buffer).map_err(|_| Error::TokenizeError(24, 0, 0))?;
     let chars: Vec<char> = buffer.chars().collect();
     let mut column = 0_usize;
     let mut processed = 0;
-- 
2.43.0


From 3a37d7c05b9134ee380b41b0827144b845c0ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 29/50] fix: the compiler's output and errors no longer depend
 on hash map iteration order

---
 asn-compiler/src/compiler.rs                      |  9 +++++----
 asn-compiler/src/parser/asn/module.rs             | 10 +++++-----
 asn-compiler/src/parser/asn/structs/module.rs     | 15 ++++++++-------
 asn-compiler/src/parser/asn/structs/types/ioc.rs  |  6 +++---
 asn-compiler/src/parser/asn/types/ioc.rs          |  8 ++++----
 .../src/resolver/asn/structs/types/base.rs        |  6 +++---
 .../src/resolver/asn/structs/types/ioc.rs         |  6 +++---
 .../src/resolver/asn/types/base/bitstring.rs      |  4 ++--
 asn-compiler/src/resolver/asn/types/ioc.rs        |  6 +++---
 asn-compiler/src/resolver/int.rs                  | 10 +++++-----
 10 files changed, 41 insertions(+), 39 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index cd044fd..ba621c7 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -1,7 +1,7 @@
 #![allow(dead_code)]
 //! Structs related to ASN.1 Compiler
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::io;
 use std::io::Write;
 use std::process::{Command, Stdio};
@@ -24,7 +24,7 @@ pub struct Asn1Compiler {
     // Modules belonging to this 'invocation' of compiler. Modules are maintined inside a `RefCell`
     // because we need Interior Mutability with the modules (for example to 'resolve' definitions
     // within the modules.
-    modules: HashMap<String, Asn1Module>,
+    modules: BTreeMap<String, Asn1Module>,
 
     // Holds the 'Resolver' that is used for 'resolv'ing definitions.
     resolver: Resolver,
@@ -43,7 +43,7 @@ impl Asn1Compiler {
     /// Create a new Instance of the Compiler structure.
     pub fn new() -> Self {
         Asn1Compiler {
-            modules: HashMap::new(),
+            modules: BTreeMap::new(),
             resolver: Resolver::new(),
             generator: Generator::new("ngap"), // FIXME: Hard coded
         }
@@ -149,10 +149,11 @@ impl Asn1Compiler {
 
         let mut out_vec = vec![];
         loop {
-            let popped = ts.pop_all();
+            let mut popped = ts.pop_all();
             if popped.is_empty() {
                 break;
             } else {
+                popped.sort();
                 out_vec.extend(popped);
             }
         }
diff --git a/asn-compiler/src/parser/asn/module.rs b/asn-compiler/src/parser/asn/module.rs
index de64414..0e37337 100644
--- a/asn-compiler/src/parser/asn/module.rs
+++ b/asn-compiler/src/parser/asn/module.rs
@@ -1,5 +1,5 @@
 //! ASN.1 Module Parsing functionality
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::error::Error;
 use crate::tokenizer::Token;
@@ -19,7 +19,7 @@ use super::{
 impl Asn1Module {
     pub(crate) fn resolve_object_classes(
         &mut self,
-        object_classes: &HashMap<String, Asn1Definition>,
+        object_classes: &BTreeMap<String, Asn1Definition>,
     ) -> Result<(), Error> {
         for def in self.definitions.values_mut() {
             if !def.is_object_or_object_set() {
@@ -77,7 +77,7 @@ where
     let (imports, imports_consumed) = parse_module_imports(&tokens[consumed..])?;
     consumed += imports_consumed;
 
-    let mut definitions = HashMap::new();
+    let mut definitions = BTreeMap::new();
     while !expect_keyword(&tokens[consumed..], "END")? {
         let (def, definition_consumed) = parse_definition(&tokens[consumed..])?;
         definitions.insert(def.id(), def);
@@ -98,11 +98,11 @@ where
 
 fn parse_module_imports(
     tokens: &[Token],
-) -> Result<(HashMap<String, Asn1ModuleName>, usize), Error> {
+) -> Result<(BTreeMap<String, Asn1ModuleName>, usize), Error> {
     let mut consumed = 0;
 
     // FIXME: Parse IMPORTS and EXPORTS
-    let mut imports = HashMap::new();
+    let mut imports = BTreeMap::new();
     if expect_keyword(&tokens[consumed..], "IMPORTS")? {
         consumed += 1;
 
diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index a2325c6..63ae194 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -1,6 +1,6 @@
 //! ASN.1 Module Level Structures and other functionality
 
-use std::collections::{hash_map::Iter, HashMap};
+use std::collections::{btree_map::Iter, BTreeMap};
 
 use topological_sort::TopologicalSort;
 
@@ -53,11 +53,11 @@ impl Asn1ModuleName {
 /// information about it is kept as well.
 #[derive(Debug, Default)]
 pub struct Asn1Module {
-    pub(in crate::parser) imports: HashMap<String, Asn1ModuleName>,
+    pub(in crate::parser) imports: BTreeMap<String, Asn1ModuleName>,
     pub(in crate::parser) _exports: Option<Vec<Asn1Definition>>,
     pub(in crate::parser) name: Asn1ModuleName,
     pub(in crate::parser) _tags: Asn1ModuleTag,
-    pub(in crate::parser) definitions: HashMap<String, Asn1Definition>,
+    pub(in crate::parser) definitions: BTreeMap<String, Asn1Definition>,
     pub(in crate::parser) _exports_all: bool,
 }
 
@@ -70,11 +70,11 @@ impl Asn1Module {
         Self { _tags, ..self }
     }
 
-    pub fn imports(self, imports: HashMap<String, Asn1ModuleName>) -> Self {
+    pub fn imports(self, imports: BTreeMap<String, Asn1ModuleName>) -> Self {
         Self { imports, ..self }
     }
 
-    pub(crate) fn definitions(self, definitions: HashMap<String, Asn1Definition>) -> Self {
+    pub(crate) fn definitions(self, definitions: BTreeMap<String, Asn1Definition>) -> Self {
         Self {
             definitions,
             ..self
@@ -102,10 +102,11 @@ impl Asn1Module {
 
         let mut out_vec = vec![];
         loop {
-            let popped = ts.pop_all();
+            let mut popped = ts.pop_all();
             if popped.is_empty() {
                 break;
             } else {
+                popped.sort();
                 out_vec.extend(popped);
             }
         }
@@ -119,7 +120,7 @@ impl Asn1Module {
 
     // FIXME: Add filtering criteria
     #[inline(always)]
-    pub(crate) fn get_definitions(&self) -> &HashMap<String, Asn1Definition> {
+    pub(crate) fn get_definitions(&self) -> &BTreeMap<String, Asn1Definition> {
         &self.definitions
     }
 
diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index 79b5ca2..8d7b1e2 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -1,6 +1,6 @@
 //! Structures related to Information Object Class, Objects etc.
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use super::Asn1Type;
 
@@ -49,7 +49,7 @@ impl ObjectClassFieldSpec {
 
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ObjectClass {
-    pub(crate) fields: HashMap<String, ObjectClassFieldSpec>,
+    pub(crate) fields: BTreeMap<String, ObjectClassFieldSpec>,
 }
 
 impl Asn1ObjectClass {
@@ -126,7 +126,7 @@ impl Asn1ObjectFieldSpec {
 #[derive(Debug, Clone)]
 pub(crate) enum Asn1ObjectValue {
     Asn1ObjectFromClass {
-        fields: HashMap<String, Asn1ObjectFieldSpec>,
+        fields: BTreeMap<String, Asn1ObjectFieldSpec>,
     },
     Input(String),
 }
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index d81941c..211b6e8 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -1,5 +1,5 @@
 //! Parsing of Information Object Class, Objects, Object Sets etc.
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::error::Error;
 use crate::tokenizer::{tokenize, Token};
@@ -29,7 +29,7 @@ pub(crate) fn parse_class(tokens: &[Token]) -> Result<(Asn1ObjectClass, usize),
     }
     consumed += 1;
 
-    let mut fields = HashMap::new();
+    let mut fields = BTreeMap::new();
     loop {
         // Any error in parsing a field spec is an error.
         let (field_spec, field_spec_consumed) = parse_field_spec(&tokens[consumed..])?;
@@ -202,7 +202,7 @@ fn parse_type_field_spec(tokens: &[Token]) -> Result<(ObjectClassFieldSpec, usiz
 
 fn parse_with_syntax_for_fields(
     tokens: &[Token],
-    fields: &mut HashMap<String, ObjectClassFieldSpec>,
+    fields: &mut BTreeMap<String, ObjectClassFieldSpec>,
 ) -> Result<usize, Error> {
     let mut consumed = 0;
     if !expect_keywords(&tokens[consumed..], &["WITH", "SYNTAX"])? {
@@ -450,7 +450,7 @@ pub(crate) fn parse_object_from_class(
             .iter()
             .any(|f| f.split_whitespace().any(|w| t.text == w))
     });
-    let mut fields = HashMap::new();
+    let mut fields = BTreeMap::new();
     for words in word_tokens {
         consumed += words.len();
         let words = words
diff --git a/asn-compiler/src/resolver/asn/structs/types/base.rs b/asn-compiler/src/resolver/asn/structs/types/base.rs
index b433a3f..a3e3160 100644
--- a/asn-compiler/src/resolver/asn/structs/types/base.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/base.rs
@@ -1,5 +1,5 @@
 //! Structs for the resolved Base Types
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet};
 
 use crate::resolver::asn::structs::types::constraints::Asn1ConstraintValueSet;
 
@@ -24,7 +24,7 @@ pub(crate) struct Asn1ResolvedInteger {
     pub(crate) bits: u8,
     pub(crate) signed: bool,
     pub(crate) resolved_constraints: Option<Asn1ConstraintValueSet>,
-    pub(crate) named_values: Option<HashMap<String, i128>>,
+    pub(crate) named_values: Option<BTreeMap<String, i128>>,
 }
 
 impl Default for Asn1ResolvedInteger {
@@ -72,7 +72,7 @@ pub(crate) struct Asn1ResolvedBitString {
     pub(crate) size: Option<Asn1ConstraintValueSet>,
 
     // We support only up to 128 named bits, if more than that is required, change this to appropriate. value
-    pub(crate) named_values: HashMap<String, u8>,
+    pub(crate) named_values: BTreeMap<String, u8>,
 }
 
 // Just an empty structure for Resolved `BOOLEAN` type.
diff --git a/asn-compiler/src/resolver/asn/structs/types/ioc.rs b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
index 683fe3c..971756c 100644
--- a/asn-compiler/src/resolver/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
@@ -1,5 +1,5 @@
 //! Resolved(Object|ObjectSet) Definitions
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::resolver::asn::structs::{types::Asn1ResolvedType, values::Asn1ResolvedValue};
 
@@ -17,7 +17,7 @@ pub(crate) enum ResolvedFieldSpec {
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ResolvedObject {
     pub(crate) name: String,
-    pub(crate) fields: HashMap<String, ResolvedFieldSpec>,
+    pub(crate) fields: BTreeMap<String, ResolvedFieldSpec>,
 }
 
 #[derive(Debug, Clone)]
@@ -29,7 +29,7 @@ pub(crate) struct Asn1ResolvedObjectSet {
 pub(crate) struct ResolvedObjectSet {
     pub(crate) decoder_ty: Option<Asn1ResolvedType>,
     pub(crate) elements: Vec<ResolvedObjectSetElement>,
-    pub(crate) lookup_table: HashMap<(String, String), ResolvedObjectSetElement>,
+    pub(crate) lookup_table: BTreeMap<(String, String), ResolvedObjectSetElement>,
 }
 
 #[derive(Debug, Clone)]
diff --git a/asn-compiler/src/resolver/asn/types/base/bitstring.rs b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
index cb0f510..3926795 100644
--- a/asn-compiler/src/resolver/asn/types/base/bitstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
@@ -1,6 +1,6 @@
 //! Functionality for handling Resolved ASN.1 BIT STRING
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::error::Error;
 
@@ -34,7 +34,7 @@ impl Asn1ResolvedBitString {
         }
 
         if b.named_bits.is_some() {
-            let mut named_values = HashMap::new();
+            let mut named_values = BTreeMap::new();
             for nb in b.named_bits.as_ref().unwrap() {
                 if let NamedValue::Number(ref v) = nb.1 {
                     let parsed = v.parse::<u8>().unwrap(); // Let it panic if it does not fit in u8.
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 975273f..db20a97 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -1,5 +1,5 @@
 //! Handling of Information Object Classes, ObjectSets, Objects etc
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::error::Error;
 
@@ -45,7 +45,7 @@ pub(crate) fn resolve_object_set(
             } else {
                 "".to_string()
             };
-            let mut lookup_table = HashMap::new();
+            let mut lookup_table = BTreeMap::new();
 
             let mut elements = vec![];
             let mut input_elements = objectset.objects.root_elements.clone();
@@ -184,7 +184,7 @@ pub(crate) fn resolve_object(
     object_value: &Asn1ObjectValue,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedObject, Error> {
-    let mut resolved_fields = HashMap::new();
+    let mut resolved_fields = BTreeMap::new();
     if let Asn1ObjectValue::Asn1ObjectFromClass { fields } = object_value {
         for (k, field) in fields {
             let resolved = match field {
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 30cbbc6..0b5a2b5 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -1,6 +1,6 @@
 //! Resolver Struct and it's implementation
 
-use std::collections::{BTreeMap, HashMap};
+use std::collections::BTreeMap;
 
 use crate::error::Error;
 
@@ -16,18 +16,18 @@ pub(crate) struct Resolver {
     pub(crate) resolved_defs: BTreeMap<String, Asn1ResolvedDefinition>,
 
     // Unresolved Parameterized Definitions used by individual 'Type's to resolve themselves.
-    pub(crate) parameterized_defs: HashMap<String, Asn1Definition>,
+    pub(crate) parameterized_defs: BTreeMap<String, Asn1Definition>,
 
     // Object Classes: Used by Objects and Object Sets to resolves themselves.
-    pub(crate) classes: HashMap<String, Asn1Definition>,
+    pub(crate) classes: BTreeMap<String, Asn1Definition>,
 }
 
 impl Resolver {
     pub fn new() -> Self {
         Resolver {
             resolved_defs: BTreeMap::new(),
-            parameterized_defs: HashMap::new(),
-            classes: HashMap::new(),
+            parameterized_defs: BTreeMap::new(),
+            classes: BTreeMap::new(),
         }
     }
 
-- 
2.43.0


From 847e9d58bc3304d48c56d60b0d4558470bd81683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 30/50] fix: the diagnostic for an unresolved definition does
 not go to standard output

---
 asn-compiler/src/resolver/int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 0b5a2b5..a27f74b 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -87,7 +87,7 @@ impl Resolver {
             }
             let parsed_def = parsed_def.unwrap();
             if !parsed_def.resolved {
-                println!(
+                eprintln!(
                     "UNRESOLVED: Definition: {} in module : {} not resolved!",
                     k,
                     module.get_module_name()
-- 
2.43.0


From 92ed71ae722ae1a51c5d94700a7474eaff6063e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:51 +0000
Subject: [PATCH 31/50] fix: code that could not be passed through rustfmt is
 an error, never output

---
 asn-compiler/src/compiler.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index ba621c7..292c643 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -100,23 +100,22 @@ impl Asn1Compiler {
 
         let code = code.to_owned();
         let stdin_handle =
-            ::std::thread::spawn(move || match child_stdin.write_all(code.as_bytes()) {
-                Ok(_) => code,
-                Err(_) => "write error in rustfmt".to_owned(),
-            });
+            ::std::thread::spawn(move || child_stdin.write_all(code.as_bytes()));
 
         let mut output = vec![];
         io::copy(&mut child_stdout, &mut output).map_err(|e| resolve_error!("{:#?}", e))?;
 
         let status = child.wait().map_err(|e| resolve_error!("{:#?}", e))?;
 
-        match String::from_utf8(output) {
-            Ok(formatted_output) => match status.code() {
-                Some(0) => Ok(formatted_output.to_owned()),
-                _ => Err(resolve_error!("`rustfmt` failed to write some bindings.")),
-            },
-            _ => Ok(stdin_handle.join().unwrap().to_owned()),
+        match stdin_handle.join() {
+            Ok(written) => written.map_err(|e| resolve_error!("{:#?}", e))?,
+            Err(_) => return Err(resolve_error!("Writing to `rustfmt` failed.")),
         }
+
+        if !status.success() {
+            return Err(resolve_error!("`rustfmt` failed to write some bindings."));
+        }
+        String::from_utf8(output).map_err(|e| resolve_error!("{:#?}", e))
     }
 
     fn resolve_imports(&self) -> Result<(), Error> {
-- 
2.43.0


From 016241ca0d5cb3fe6c3c1f621e121907998e33bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:24 +0000
Subject: [PATCH 32/50] fix: cyclic definitions are reported, they were
 silently left out of the generated code

---
 asn-compiler/src/parser/asn/structs/module.rs | 12 ++++++++++--
 asn-compiler/src/resolver/int.rs              |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index 63ae194..018fe04 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -4,6 +4,7 @@ use std::collections::{btree_map::Iter, BTreeMap};
 
 use topological_sort::TopologicalSort;
 
+use crate::error::Error;
 use crate::parser::asn::structs::{defs::Asn1Definition, oid::ObjectIdentifier};
 
 #[derive(Debug, PartialEq)]
@@ -88,7 +89,7 @@ impl Asn1Module {
     // a Type definition or a Class Name in an object definition and so on. We don't include the
     // 'import'ed definitions in these because, they will already be 'Resolved' because the modules
     // are already in a Topologically sorted order!
-    pub(crate) fn definitions_sorted(&mut self) -> Vec<String> {
+    pub(crate) fn definitions_sorted(&mut self) -> Result<Vec<String>, Error> {
         let mut ts = TopologicalSort::<String>::new();
 
         for (k, v) in self.definitions.iter() {
@@ -110,7 +111,14 @@ impl Asn1Module {
                 out_vec.extend(popped);
             }
         }
-        out_vec
+        // Whatever is still left is on, or depends upon, a cycle.
+        if !ts.is_empty() {
+            return Err(resolve_error!(
+                "Module '{}' has cyclic definitions!",
+                self.get_module_name()
+            ));
+        }
+        Ok(out_vec)
     }
 
     #[inline(always)]
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index a27f74b..9c68d10 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -51,7 +51,7 @@ impl Resolver {
 
         module.resolve_object_classes(&self.classes)?;
 
-        let definitions_sorted = module.definitions_sorted();
+        let definitions_sorted = module.definitions_sorted()?;
         for k in definitions_sorted {
             let parsed_def = module.get_definition_mut(&k);
             if parsed_def.is_none() {
@@ -76,7 +76,7 @@ impl Resolver {
             parsed_def.resolved = true;
         }
 
-        for k in module.definitions_sorted() {
+        for k in module.definitions_sorted()? {
             let parsed_def = module.get_definition_mut(&k);
             if parsed_def.is_none() {
                 eprintln!(
-- 
2.43.0


From 352617e5d8cb5925e2c0ef5c57bd112265c28608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 33/50] fix: modules importing each other in a cycle are
 reported, they were silently left out

---
 asn-compiler/src/compiler.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index 292c643..c40c861 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -135,7 +135,7 @@ impl Asn1Compiler {
         Ok(())
     }
 
-    fn sorted_modules(&self) -> Vec<String> {
+    fn sorted_modules(&self) -> Result<Vec<String>, Error> {
         let mut ts = TopologicalSort::<String>::new();
 
         for module in self.modules.values() {
@@ -156,11 +156,15 @@ impl Asn1Compiler {
                 out_vec.extend(popped);
             }
         }
-        out_vec
+        // Whatever is still left is on, or depends upon, a cycle.
+        if !ts.is_empty() {
+            return Err(resolve_error!("Modules import each other in a cycle!"));
+        }
+        Ok(out_vec)
     }
 
     fn resolve_definitions(&mut self) -> Result<(), Error> {
-        let module_names = self.sorted_modules();
+        let module_names = self.sorted_modules()?;
         for name in module_names {
             let mut module = self.modules.get_mut(&name).unwrap();
 
-- 
2.43.0


From 2c56d11fe57dc0161404ac63ede60e4e9971544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:34 +0000
Subject: [PATCH 34/50] fix: a repeated definition is an error, the earlier one
 was silently overwritten

---
 asn-compiler/src/parser/asn/module.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn-compiler/src/parser/asn/module.rs b/asn-compiler/src/parser/asn/module.rs
index 0e37337..a40379b 100644
--- a/asn-compiler/src/parser/asn/module.rs
+++ b/asn-compiler/src/parser/asn/module.rs
@@ -80,6 +80,9 @@ where
     let mut definitions = BTreeMap::new();
     while !expect_keyword(&tokens[consumed..], "END")? {
         let (def, definition_consumed) = parse_definition(&tokens[consumed..])?;
+        if definitions.contains_key(&def.id()) {
+            return Err(parse_error!("Definition '{}' is repeated", def.id()));
+        }
         definitions.insert(def.id(), def);
         consumed += definition_consumed;
     }
-- 
2.43.0


From fca2b07c373a72ffb393521ffdc37040ff1df58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:39 +0000
Subject: [PATCH 35/50] fix: a repeated module is an error, the earlier one was
 silently overwritten

---
 asn-compiler/src/bin/hampi-asn1c.rs | 7 ++++++-
 asn-compiler/src/compiler.rs        | 9 ++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/bin/hampi-asn1c.rs b/asn-compiler/src/bin/hampi-asn1c.rs
index 53f4d73..ca3ca1d 100644
--- a/asn-compiler/src/bin/hampi-asn1c.rs
+++ b/asn-compiler/src/bin/hampi-asn1c.rs
@@ -24,7 +24,12 @@ fn main() -> io::Result<()> {
             }
             let module = module.unwrap();
             //eprintln!("module: {:#?}", module);
-            compiler.add_module(module);
+            if !compiler.add_module(module) {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!("A module of {} was already added", arg),
+                ));
+            }
         }
     }
     compiler.resolve_modules()?;
diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index c40c861..91e15f9 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -53,9 +53,12 @@ impl Asn1Compiler {
     ///
     /// If the module alredy exists, returns `false` else returns `true`.
     pub fn add_module(&mut self, module: Asn1Module) -> bool {
-        self.modules
-            .insert(module.get_module_name(), module)
-            .is_some()
+        let name = module.get_module_name();
+        if self.modules.contains_key(&name) {
+            return false;
+        }
+        self.modules.insert(name, module);
+        true
     }
 
     /// Resolve Modules order and definitions within those modules.
-- 
2.43.0


From b10a5e40217b5582006d68050091570a50c5aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:35 +0000
Subject: [PATCH 36/50] fix: importing a symbol that the other module does not
 have is an error

---
 asn-compiler/src/compiler.rs                  | 18 ++++++++++++++----
 asn-compiler/src/parser/asn/structs/module.rs |  5 +++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index 91e15f9..18d7be7 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -125,11 +125,21 @@ impl Asn1Compiler {
         for (_, module) in self.modules.iter() {
             for (import, module_name) in module.get_imported_defs() {
                 let target = self.modules.get(module_name.name_as_str());
-                if target.is_none() {
+                let target = match target {
+                    Some(target) => target,
+                    None => {
+                        return Err(resolve_error!(
+                            "Module '{}', corresponding to definition '{}' not found!",
+                            module_name.name_as_str(),
+                            import
+                        ));
+                    }
+                };
+                if !target.has_symbol(import) {
                     return Err(resolve_error!(
-                        "Module '{}', corresponding to definition '{}' not found!",
-                        module_name.name_as_str(),
-                        import
+                        "Definition '{}' not found in the module '{}'!",
+                        import,
+                        module_name.name_as_str()
                     ));
                 }
             }
diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index 018fe04..de82a97 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -137,6 +137,11 @@ impl Asn1Module {
         self.definitions.get_mut(key)
     }
 
+    // Whether a symbol can be imported from this module: defined here, or imported here.
+    pub(crate) fn has_symbol(&self, symbol: &str) -> bool {
+        self.definitions.contains_key(symbol) || self.imports.contains_key(symbol)
+    }
+
     #[inline(always)]
     pub(crate) fn get_imported_defs(&self) -> Iter<'_, String, Asn1ModuleName> {
         self.imports.iter()
-- 
2.43.0


From 55977cff1f3dbc1237e86139aa05e27e5a70f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:37 +0000
Subject: [PATCH 37/50] fix: a name with different definitions in two modules
 is an error, one was silently overwritten

---
 asn-compiler/src/compiler.rs                  |  1 +
 asn-compiler/src/resolver/asn/structs/defs.rs |  2 +-
 .../src/resolver/asn/structs/types/base.rs    | 18 ++++++------
 .../resolver/asn/structs/types/constraints.rs |  4 +--
 .../resolver/asn/structs/types/constructed.rs |  8 +++---
 .../src/resolver/asn/structs/types/ioc.rs     | 10 +++----
 .../src/resolver/asn/structs/types/mod.rs     |  4 +--
 .../src/resolver/asn/structs/values.rs        | 10 +++----
 asn-compiler/src/resolver/int.rs              | 28 +++++++++++++------
 9 files changed, 49 insertions(+), 36 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index 18d7be7..dbe16bd 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -178,6 +178,7 @@ impl Asn1Compiler {
 
     fn resolve_definitions(&mut self) -> Result<(), Error> {
         let module_names = self.sorted_modules()?;
+        self.resolver = Resolver::new();
         for name in module_names {
             let mut module = self.modules.get_mut(&name).unwrap();
 
diff --git a/asn-compiler/src/resolver/asn/structs/defs.rs b/asn-compiler/src/resolver/asn/structs/defs.rs
index 4070bad..2a82dde 100644
--- a/asn-compiler/src/resolver/asn/structs/defs.rs
+++ b/asn-compiler/src/resolver/asn/structs/defs.rs
@@ -2,7 +2,7 @@ use super::types::ioc::{Asn1ResolvedObject, Asn1ResolvedObjectSet};
 use super::types::Asn1ResolvedType;
 use super::values::Asn1ResolvedValue;
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) enum Asn1ResolvedDefinition {
     Type(Asn1ResolvedType),
     Value(Asn1ResolvedValue),
diff --git a/asn-compiler/src/resolver/asn/structs/types/base.rs b/asn-compiler/src/resolver/asn/structs/types/base.rs
index a3e3160..dee398f 100644
--- a/asn-compiler/src/resolver/asn/structs/types/base.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/base.rs
@@ -3,7 +3,7 @@ use std::collections::{BTreeMap, BTreeSet};
 
 use crate::resolver::asn::structs::types::constraints::Asn1ConstraintValueSet;
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) enum ResolvedBaseType {
     Integer(Asn1ResolvedInteger),
     Enum(Asn1ResolvedEnumerated),
@@ -19,7 +19,7 @@ pub(crate) enum ResolvedBaseType {
 //
 // This structure is obtained when all the 'Constraints' in a give definition are applied.
 // Information from this structure can be directly used for code generation.
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct Asn1ResolvedInteger {
     pub(crate) bits: u8,
     pub(crate) signed: bool,
@@ -38,7 +38,7 @@ impl Default for Asn1ResolvedInteger {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct Asn1ResolvedEnumerated {
     pub(crate) bits: u8,
     pub(crate) signed: bool,
@@ -67,7 +67,7 @@ impl Default for Asn1ResolvedEnumerated {
 
 // A Resolved `BIT STRING` representation. Normally only the `SIZE` Constraint needs to be
 // resolved. If optional, `named_bits` are present, we maintain those in the map below.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Default, Clone, PartialEq)]
 pub(crate) struct Asn1ResolvedBitString {
     pub(crate) size: Option<Asn1ConstraintValueSet>,
 
@@ -76,26 +76,26 @@ pub(crate) struct Asn1ResolvedBitString {
 }
 
 // Just an empty structure for Resolved `BOOLEAN` type.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Default, Clone, PartialEq)]
 pub(crate) struct Asn1ResolvedBoolean;
 
 // Just an empty structure for Resolved `NULL` type.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Default, Clone, PartialEq)]
 pub(crate) struct Asn1ResolvedNull;
 
 // A structure representing a Resolved `OCTET STRING`. `SIZE` Constraint is resolved as well. The
 // `CONTAINING` Constraint is not resolved.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Default, Clone, PartialEq)]
 pub(crate) struct Asn1ResolvedOctetString {
     pub(crate) size: Option<Asn1ConstraintValueSet>,
 }
 
 // A structure representing a Resolved `CharacterString`. `SIZE` Constraint is resolved as well. The
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Default, Clone, PartialEq)]
 pub(crate) struct Asn1ResolvedCharacterString {
     pub(crate) str_type: String,
     pub(crate) size: Option<Asn1ConstraintValueSet>,
 }
 
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Default, Clone, PartialEq)]
 pub(crate) struct Asn1ResolvedObjectIdentifier;
diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 78ddae2..08e26b0 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -2,7 +2,7 @@
 
 use std::ops::Range;
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct ConstraintValues {
     pub(crate) ranges: Vec<Range<i128>>,
     pub(crate) values: Vec<i128>,
@@ -49,7 +49,7 @@ impl ConstraintValues {
         }
     }
 }
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct Asn1ConstraintValueSet {
     pub(crate) root_values: ConstraintValues,
     pub(crate) additional_values: Option<ConstraintValues>,
diff --git a/asn-compiler/src/resolver/asn/structs/types/constructed.rs b/asn-compiler/src/resolver/asn/structs/types/constructed.rs
index a786c27..0eeb562 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constructed.rs
@@ -2,7 +2,7 @@
 
 use crate::resolver::asn::structs::types::{constraints::Asn1ConstraintValueSet, Asn1ResolvedType};
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) enum ResolvedConstructedType {
     Choice {
         name: Option<String>,
@@ -21,19 +21,19 @@ pub(crate) enum ResolvedConstructedType {
     },
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) enum ClassFieldComponentType {
     FixedTypeValue,
     Type,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct ResolvedComponent {
     pub(crate) id: String,
     pub(crate) ty: Asn1ResolvedType,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct ResolvedSeqComponent {
     pub(crate) component: ResolvedComponent,
     pub(crate) optional: bool,
diff --git a/asn-compiler/src/resolver/asn/structs/types/ioc.rs b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
index 971756c..adddb14 100644
--- a/asn-compiler/src/resolver/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
@@ -3,7 +3,7 @@ use std::collections::BTreeMap;
 
 use crate::resolver::asn::structs::{types::Asn1ResolvedType, values::Asn1ResolvedValue};
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) enum ResolvedFieldSpec {
     Type {
         ty: Option<Asn1ResolvedType>,
@@ -14,25 +14,25 @@ pub(crate) enum ResolvedFieldSpec {
     },
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct Asn1ResolvedObject {
     pub(crate) name: String,
     pub(crate) fields: BTreeMap<String, ResolvedFieldSpec>,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct Asn1ResolvedObjectSet {
     pub(crate) objects: ResolvedObjectSet,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct ResolvedObjectSet {
     pub(crate) decoder_ty: Option<Asn1ResolvedType>,
     pub(crate) elements: Vec<ResolvedObjectSetElement>,
     pub(crate) lookup_table: BTreeMap<(String, String), ResolvedObjectSetElement>,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) enum ResolvedObjectSetElement {
     ObjectSetReference(String),
     ObjectReference(String),
diff --git a/asn-compiler/src/resolver/asn/structs/types/mod.rs b/asn-compiler/src/resolver/asn/structs/types/mod.rs
index de7898d..8fb2e57 100644
--- a/asn-compiler/src/resolver/asn/structs/types/mod.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/mod.rs
@@ -12,13 +12,13 @@ pub(crate) mod constraints;
 
 pub(crate) type ResolvedSetTypeMap = BTreeMap<(String, String), (String, Asn1ResolvedType)>;
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct ResolvedSetType {
     pub(crate) setref: String,
     pub(crate) types: ResolvedSetTypeMap,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) enum Asn1ResolvedType {
     // One of the resolved Base Types.
     Base(ResolvedBaseType),
diff --git a/asn-compiler/src/resolver/asn/structs/values.rs b/asn-compiler/src/resolver/asn/structs/values.rs
index 285e4d4..ba47b1b 100644
--- a/asn-compiler/src/resolver/asn/structs/values.rs
+++ b/asn-compiler/src/resolver/asn/structs/values.rs
@@ -15,31 +15,31 @@ pub(crate) type BaseCharString = bool;
 /// Any OCTET STRING value will be represente by a BaseOctetString type when 'Resolved'.
 pub(crate) type BaseOctetSTring = Vec<u8>;
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct Asn1ResolvedIntegerValue {
     pub(crate) typeref: Asn1ResolvedType,
     pub(crate) value: BaseInteger,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct Asn1ResolvedEnumValue {
     pub(crate) typeref: Asn1ResolvedType,
     pub(crate) value: BaseEnum,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) enum ResolvedBaseValue {
     Integer(Asn1ResolvedIntegerValue),
     Enum(Asn1ResolvedEnumValue),
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) struct ResolvedRefValue {
     pub(crate) reference: String,
     pub(crate) value: Box<Asn1ResolvedValue>,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub(crate) enum Asn1ResolvedValue {
     Reference(String),
     ReferencedType {
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 9c68d10..c07ad22 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -47,7 +47,7 @@ impl Resolver {
     // We do not need to do any `Pending` definitions, as we were doing before.
     pub(crate) fn resolve_definitions(&mut self, module: &mut Asn1Module) -> Result<(), Error> {
         // We need to first get Classes in the current module - resolved
-        self.resolve_classes_in_current_module(module);
+        self.resolve_classes_in_current_module(module)?;
 
         module.resolve_object_classes(&self.classes)?;
 
@@ -63,15 +63,20 @@ impl Resolver {
             }
             let parsed_def = parsed_def.unwrap();
             if parsed_def.params.is_some() {
-                self.parameterized_defs
-                    .insert(k.to_string(), parsed_def.clone());
+                let def = parsed_def.clone();
+                if self.parameterized_defs.insert(k.clone(), def).is_some() {
+                    return Err(repeated_definition(&k));
+                }
                 parsed_def.resolved = true;
             } else if parsed_def.is_class_assignment() {
-                self.classes.insert(k.to_string(), parsed_def.clone());
+                // Already a part of `self.classes`
                 parsed_def.resolved = true;
             } else {
                 let resolved_def = resolve_definition(parsed_def, self)?;
-                self.resolved_defs.insert(k.clone(), resolved_def);
+                let other = self.resolved_defs.insert(k.clone(), resolved_def.clone());
+                if other.map_or(false, |other| other != resolved_def) {
+                    return Err(repeated_definition(&k));
+                }
             }
             parsed_def.resolved = true;
         }
@@ -108,11 +113,18 @@ impl Resolver {
             .collect::<Vec<(&String, &Asn1ResolvedType)>>()
     }
 
-    fn resolve_classes_in_current_module(&mut self, module: &Asn1Module) {
+    fn resolve_classes_in_current_module(&mut self, module: &Asn1Module) -> Result<(), Error> {
         for (k, def) in module.get_definitions() {
-            if def.is_class_assignment() {
-                self.classes.insert(k.clone(), def.clone());
+            if def.is_class_assignment()
+                && self.classes.insert(k.clone(), def.clone()).is_some()
+            {
+                return Err(repeated_definition(k));
             }
         }
+        Ok(())
     }
 }
+
+fn repeated_definition(name: &str) -> Error {
+    resolve_error!("Definition '{}' is present in more than one module!", name)
+}
-- 
2.43.0


From d23664bd3486593e62a6b630f34515c2103be2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:49 +0000
Subject: [PATCH 38/50] fix: an unexpected token inside CHOICE, SEQUENCE,
 parameters or an object set is an error, not an endless loop

---
 .../src/parser/asn/types/constructed/choice.rs   | 16 ++++++++++++++++
 .../src/parser/asn/types/constructed/seq.rs      |  8 ++++++++
 asn-compiler/src/parser/asn/types/int.rs         |  8 ++++++++
 asn-compiler/src/parser/asn/types/ioc.rs         |  8 ++++++++
 4 files changed, 40 insertions(+)

diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index 83ca10f..a19902e 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -32,6 +32,7 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
     let mut no_ver_additions_components = vec![];
     let mut extension_markers = 0;
     loop {
+        let start = consumed;
         let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
             Ok(result) => (Some(result.0), result.1),
             Err(_) => (None, 0),
@@ -84,6 +85,13 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!(
+                "'Component', '[[', ',', '...' or '}'",
+                tokens[consumed]
+            ));
+        }
     }
 
     let additions = if extension_markers > 0 {
@@ -130,6 +138,7 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
 
     let mut components = vec![];
     loop {
+        let start = consumed;
         let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
             Ok(result) => (Some(result.0), result.1),
             Err(_) => (None, 0),
@@ -148,6 +157,13 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!(
+                "'Component', ',' or ']]'",
+                tokens[consumed]
+            ));
+        }
     }
     if components.is_empty() {
         Err(parse_error!("Additional Components cannot be empty!"))
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index 6b2b6ec..96a90b9 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -43,6 +43,7 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
     let mut additions = vec![];
     let mut ext_marker_found = 0;
     loop {
+        let start = consumed;
         let (component, component_consumed) = match parse_seq_component(&tokens[consumed..]) {
             Ok(result) => result,
             Err(_) => (None, 0),
@@ -83,6 +84,13 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!(
+                "'Component', '[[', ',', '...' or '}'",
+                tokens[consumed]
+            ));
+        }
     }
 
     let extensible = ext_marker_found > 0;
diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index 470acae..44a7633 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -194,6 +194,7 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
 
     let mut params = vec![];
     loop {
+        let start = consumed;
         if expect_token(&tokens[consumed..], Token::is_curly_begin)? {
             consumed += 1;
             let param = if expect_one_of_tokens(
@@ -229,6 +230,13 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!(
+                "'Actual Parameter', ',' or '}'",
+                tokens[consumed]
+            ));
+        }
     }
     Ok((params, consumed))
 }
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index 211b6e8..84f7c5c 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -314,6 +314,7 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
     let mut additional_elements = vec![];
     let mut extension_token_count = 0;
     loop {
+        let start = consumed;
         if expect_token(&tokens[consumed..], Token::is_extension)? {
             extension_token_count += 1;
             if extension_token_count > 1 {
@@ -371,6 +372,13 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!(
+                "'Object Set Element', '...', ',', '|' or '}'",
+                tokens[consumed]
+            ));
+        }
     }
     Ok((
         ObjectSet {
-- 
2.43.0


From 55e6cf295b1eabbd87201513cb6068cde81df152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:49 +0000
Subject: [PATCH 39/50] fix: a SEQUENCE has at most two extension markers

---
 asn-compiler/src/parser/asn/types/constructed/seq.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index 96a90b9..8391a5a 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -74,6 +74,11 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
 
         if expect_token(&tokens[consumed..], Token::is_extension)? {
             ext_marker_found += 1;
+            if ext_marker_found > 2 {
+                return Err(parse_error!(
+                    "At most two Extension Markers are allowed in a 'SEQUENCE'"
+                ));
+            }
             consumed += 1;
             if expect_token(&tokens[consumed..], Token::is_comma)? {
                 consumed += 1;
-- 
2.43.0


From 210727731810617a7da15de15c577e3a9cb846bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 40/50] fix: OCTET and CHARACTER not followed by STRING are
 errors

---
 asn-compiler/src/parser/asn/types/int.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index 44a7633..fdb64fa 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -43,14 +43,24 @@ pub(crate) fn parse_type(tokens: &[Token]) -> Result<(Asn1Type, usize), Error> {
             )
         }
 
-        "OCTET" => (Asn1TypeKind::Builtin(Asn1BuiltinType::OctetString), 2),
+        "OCTET" => {
+            if !expect_keywords(tokens, &["OCTET", "STRING"])? {
+                return Err(unexpected_token!("'OCTET STRING'", tokens[0]));
+            }
+            (Asn1TypeKind::Builtin(Asn1BuiltinType::OctetString), 2)
+        }
 
-        "CHARACTER" => (
-            Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString {
-                str_type: "CHARACTER-STRING".to_string(),
-            }),
-            2,
-        ),
+        "CHARACTER" => {
+            if !expect_keywords(tokens, &["CHARACTER", "STRING"])? {
+                return Err(unexpected_token!("'CHARACTER STRING'", tokens[0]));
+            }
+            (
+                Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString {
+                    str_type: "CHARACTER-STRING".to_string(),
+                }),
+                2,
+            )
+        }
 
         "ENUMERATED" => {
             let (enum_type, enum_type_consumed) = parse_enumerated_type(tokens)?;
-- 
2.43.0


From 39b5839f53310ebee71f61f71701dbcd0381149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 41/50] fix: the range separator of a value range is checked,
 not skipped unread

---
 asn-compiler/src/parser/asn/types/constraints.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn-compiler/src/parser/asn/types/constraints.rs b/asn-compiler/src/parser/asn/types/constraints.rs
index 2721b08..109944a 100644
--- a/asn-compiler/src/parser/asn/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/types/constraints.rs
@@ -306,6 +306,9 @@ fn parse_range_elements(tokens: &[Token]) -> Result<(SubtypeElements, usize), Er
     } else {
         true
     };
+    if !expect_token(&tokens[consumed..], Token::is_range_separator)? {
+        return Err(unexpected_token!("'..'", tokens[consumed]));
+    }
     consumed += 1; // The '..' Token
 
     let upper_inclusive = if expect_token(&tokens[consumed..], Token::is_less_than)? {
-- 
2.43.0


From 9ac9ccc9226c2504fb6e4fa475220255d9131681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 42/50] fix: unexpected tokens in IMPORTS are errors, not
 skipped unread

---
 asn-compiler/src/parser/asn/module.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/asn-compiler/src/parser/asn/module.rs b/asn-compiler/src/parser/asn/module.rs
index a40379b..7e632fa 100644
--- a/asn-compiler/src/parser/asn/module.rs
+++ b/asn-compiler/src/parser/asn/module.rs
@@ -112,11 +112,21 @@ fn parse_module_imports(
         loop {
             let mut imported_defs = vec![];
             while !expect_keyword(&tokens[consumed..], "FROM")? {
-                if expect_token(&tokens[consumed..], Token::is_identifier)? {
-                    let definition = tokens[consumed].text.clone();
-                    imported_defs.push(definition);
+                if !expect_token(&tokens[consumed..], Token::is_identifier)? {
+                    return Err(unexpected_token!("'IDENTIFIER' or 'FROM'", tokens[consumed]));
                 }
+                let definition = tokens[consumed].text.clone();
+                imported_defs.push(definition);
                 consumed += 1;
+
+                // A parameterized reference may be followed by '{' '}'
+                if expect_token(&tokens[consumed..], Token::is_curly_begin)? {
+                    consumed += 1;
+                    if !expect_token(&tokens[consumed..], Token::is_curly_end)? {
+                        return Err(unexpected_token!("'}'", tokens[consumed]));
+                    }
+                    consumed += 1;
+                }
                 if expect_token(&tokens[consumed..], Token::is_comma)? {
                     consumed += 1;
                 }
-- 
2.43.0


From f209aa3dd92855f95fe4d54f186bcebeaab6dab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:14 +0000
Subject: [PATCH 43/50] fix: an object that ends too early is an error, not a
 panic

---
 asn-compiler/src/parser/asn/types/ioc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index 84f7c5c..70f73ca 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -447,6 +447,9 @@ pub(crate) fn parse_object_from_class(
     let reader = std::io::BufReader::new(std::io::Cursor::new(value));
     let tokens = tokenize(reader)?;
     let mut consumed = 0;
+    if tokens.len() < 2 {
+        return Err(unexpected_end!());
+    }
     let object_tokens = &tokens[1..tokens.len() - 1];
 
     // We are splitting the tokens by words from WITH SYNTAX. This will use any word that's not
@@ -468,8 +471,11 @@ pub(crate) fn parse_object_from_class(
             .join(" ");
         let field_spec = class_fieldspec_from_words(class, &words);
         if let Some(fspec) = field_spec {
+            let value_tokens = object_tokens
+                .get(consumed..)
+                .ok_or_else(|| unexpected_end!())?;
             let (field_spec_value, field_spec_value_consumed) =
-                value_from_field_spec(fspec, &object_tokens[consumed..])?;
+                value_from_field_spec(fspec, value_tokens)?;
             fields.insert(fspec.id(), field_spec_value);
             consumed += field_spec_value_consumed;
 
-- 
2.43.0


From 1c020e02c21fbf03e22391f9d3d9fd2204a3d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:27 +0000
Subject: [PATCH 44/50] fix: a signed INTEGER needs a sign bit beside the bits
 of its magnitude

---
 asn-compiler/src/resolver/asn/types/base/integer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 4ce50a3..46da401 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -37,9 +37,9 @@ impl Asn1ResolvedInteger {
         let bit_width = if base.signed {
             let min = value_set.root_values.min().unwrap();
             let max = value_set.root_values.max().unwrap();
-            let bits_needed_max = 128 - max.abs().leading_zeros();
-            let bits_needed_min = 128 - min.abs().leading_zeros();
-            std::cmp::max(bits_needed_min, bits_needed_max)
+            // One more bit than the magnitude needs: the sign bit.
+            let bits_needed = |x: i128| 129 - (if x < 0 { !x } else { x }).leading_zeros();
+            std::cmp::max(bits_needed(min), bits_needed(max))
         } else if value_set.root_values.min().is_none() {
             8_u32
         } else {
-- 
2.43.0


From 0de07c5fba15c0732660c2f0517bed48af903788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:27 +0000
Subject: [PATCH 45/50] fix: the upper bound of ranges and single values is the
 greater one

---
 asn-compiler/src/resolver/asn/structs/types/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 08e26b0..4db3488 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -44,7 +44,7 @@ impl ConstraintValues {
             None => ranges_max,
             Some(vals_max) => match ranges_max {
                 None => Some(*vals_max),
-                Some(rnges_max) => Some(std::cmp::min(rnges_max, *vals_max)), // FIXME: This should be std::cmp::max?
+                Some(rnges_max) => Some(std::cmp::max(rnges_max, *vals_max)),
             },
         }
     }
-- 
2.43.0


From 38192ebfa67be249cffd9de4232626af140902e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:33 +0000
Subject: [PATCH 46/50] fix: the intersection of constraint elements is the
 values in all of them

---
 .../resolver/asn/structs/types/constraints.rs | 29 +++++++++++++++++++
 .../src/resolver/asn/types/base/integer.rs    |  6 ++++
 .../src/resolver/asn/types/constraints.rs     | 23 ++++-----------
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 4db3488..ba8c271 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -21,6 +21,35 @@ impl ConstraintValues {
         self.values.extend(other.values.clone());
     }
 
+    // The values that are in both sets.
+    pub(crate) fn intersection(&self, other: &Self) -> Self {
+        let mut result = Self::new();
+        for value in &self.values {
+            if other.contains(*value) {
+                result.values.push(*value);
+            }
+        }
+        for value in &other.values {
+            if self.contains(*value) {
+                result.values.push(*value);
+            }
+        }
+        for a in &self.ranges {
+            for b in &other.ranges {
+                let start = std::cmp::max(a.start, b.start);
+                let end = std::cmp::min(a.end, b.end);
+                if start < end {
+                    result.ranges.push(Range { start, end });
+                }
+            }
+        }
+        result
+    }
+
+    fn contains(&self, value: i128) -> bool {
+        self.values.contains(&value) || self.ranges.iter().any(|r| r.contains(&value))
+    }
+
     pub(crate) fn is_empty(&self) -> bool {
         self.values.is_empty() && self.ranges.is_empty()
     }
diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 46da401..143b1bf 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -26,6 +26,12 @@ impl Asn1ResolvedInteger {
 
         // Get the Values that are expected
         let value_set = ty.get_integer_valueset_from_constraint(resolver)?;
+        if value_set.root_values.is_empty() {
+            return Err(constraint_error!(
+                "The constraint of the Type '{:#?}' permits no value!",
+                ty
+            ));
+        }
         if let Some(x) = value_set.root_values.min() {
             if x < 0 {
                 base.signed = true
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 732986a..d1cf572 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -237,26 +237,15 @@ impl IntersectionSet {
     }
 
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
-        let mut value_set = ConstraintValues::new();
+        let mut value_set: Option<ConstraintValues> = None;
         for element in &self.elements {
             let element_set = element.get_integer_valueset(resolver)?;
-            if value_set.is_empty() {
-                // If Empty Set, it's okay to union, but not otherwise
-                value_set.append(&element_set);
-            } else {
-                value_set.values = value_set
-                    .values
-                    .into_iter()
-                    .filter(|e| element_set.values.contains(e))
-                    .collect::<Vec<i128>>();
-                value_set.ranges = value_set
-                    .ranges
-                    .into_iter()
-                    .filter(|e| element_set.ranges.contains(e))
-                    .collect::<Vec<Range<i128>>>();
-            }
+            value_set = Some(match value_set {
+                None => element_set,
+                Some(values) => values.intersection(&element_set),
+            });
         }
-        Ok(value_set)
+        Ok(value_set.unwrap_or_else(ConstraintValues::new))
     }
 
     fn dependent_references(&self) -> Vec<String> {
-- 
2.43.0


From a18597cb6e433394055b99a40d1da7fce6bbf4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:34 +0000
Subject: [PATCH 47/50] fix: every constraint of an INTEGER counts, not only
 the first

---
 asn-compiler/src/resolver/asn/types/int.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 5195053..285e3ce 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -29,8 +29,19 @@ impl Asn1Type {
         let kind = &self.kind;
         match kind {
             Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(..)) => {
-                let constraint = &self.constraints.as_ref().unwrap()[0];
-                constraint.get_integer_valueset(resolver)
+                // Every constraint restricts the values the ones before it permit; whether there are
+                // extensions is up to the last one.
+                let mut value_set: Option<Asn1ConstraintValueSet> = None;
+                for constraint in self.constraints.iter().flatten() {
+                    let mut values = constraint.get_integer_valueset(resolver)?;
+                    if let Some(earlier) = value_set {
+                        values.root_values = earlier.root_values.intersection(&values.root_values);
+                    }
+                    value_set = Some(values);
+                }
+                value_set.ok_or_else(|| {
+                    constraint_error!("The Type '{:#?}' has no constraint!", self)
+                })
             }
             Asn1TypeKind::Reference(Asn1TypeReference::Reference(ref _r)) => {
                 Err(constraint_error!("Not Implemented!"))
-- 
2.43.0


From 2922fc2f094dff1b3206a191a9d0705acbc9d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:03 +0000
Subject: [PATCH 48/50] fix: a SIZE constraint may be a union of SIZE elements

---
 .../src/resolver/asn/types/constraints.rs     | 53 ++++++++++---------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index d1cf572..dc648d5 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -110,15 +110,14 @@ impl Asn1Constraint {
     // Returns whether the constraint is a 'size' constraint.
     pub(crate) fn is_size_constraint(&self) -> bool {
         if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() != 1 {
-                false
-            } else {
-                matches!(
-                    iset[0].elements[0],
-                    Elements::Subtype(SubtypeElements::SizeConstraint(..))
-                )
-            }
+            let isets = e.get_inner_elements();
+            !isets.is_empty()
+                && isets.iter().all(|iset| {
+                    matches!(
+                        iset.elements.first(),
+                        Some(Elements::Subtype(SubtypeElements::SizeConstraint(..)))
+                    )
+                })
         } else {
             false
         }
@@ -129,26 +128,30 @@ impl Asn1Constraint {
         resolver: &Resolver,
     ) -> Result<Asn1ConstraintValueSet, Error> {
         if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() == 1 {
-                match iset[0].elements[0] {
-                    Elements::Subtype(ref s) => match s {
-                        SubtypeElements::SizeConstraint(ref elems) => {
-                            elems.get_integer_valueset(resolver)
+            let mut value_set = Asn1ConstraintValueSet {
+                root_values: ConstraintValues::new(),
+                additional_values: None,
+            };
+            for iset in e.get_inner_elements() {
+                match iset.elements.first() {
+                    Some(Elements::Subtype(SubtypeElements::SizeConstraint(ref elems))) => {
+                        let sizes = elems.get_integer_valueset(resolver)?;
+                        value_set.root_values.append(&sizes.root_values);
+                        if let Some(ref additional) = sizes.additional_values {
+                            value_set
+                                .additional_values
+                                .get_or_insert_with(ConstraintValues::new)
+                                .append(additional);
                         }
-                        _ => Err(constraint_error!(
+                    }
+                    _ => {
+                        return Err(constraint_error!(
                             "The Constraint for the Type is not a Size Constraint."
-                        )),
-                    },
-                    _ => Err(constraint_error!(
-                        "The Constraint for the type is not a size Constraint."
-                    )),
+                        ))
+                    }
                 }
-            } else {
-                Err(constraint_error!(
-                    "The Constraint for the type is not a size Constraint."
-                ))
             }
+            Ok(value_set)
         } else {
             Err(constraint_error!(
                 "The Constraint for the type is not a size Constraint."
-- 
2.43.0


From 65deb8027ae5c09ebc635839d3c873d53f905fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:04 +0000
Subject: [PATCH 49/50] fix: an extension marker after the SIZE element makes
 the size extensible

---
 asn-compiler/src/resolver/asn/types/constraints.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index dc648d5..1ff2ee0 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -151,6 +151,15 @@ impl Asn1Constraint {
                     }
                 }
             }
+            // The extension marker may also follow the SIZE element.
+            if let Some(ref additional) = e.additional_elements {
+                let values = value_set
+                    .additional_values
+                    .get_or_insert_with(ConstraintValues::new);
+                for element in &additional.elements {
+                    values.append(&element.get_integer_valueset(resolver)?);
+                }
+            }
             Ok(value_set)
         } else {
             Err(constraint_error!(
-- 
2.43.0


From 9e6a51f943e91547f21ad6bc60de5f37cf25230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:16 +0000
Subject: [PATCH 50/50] fix: the derive macro accepts the IA5String the
 compiler emits

---
 codecs_derive/src/aper/charstring.rs | 3 ++-
 codecs_derive/src/aper/mod.rs        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/charstring.rs b/codecs_derive/src/aper/charstring.rs
index 9e32e09..f4886e3 100644
--- a/codecs_derive/src/aper/charstring.rs
+++ b/codecs_derive/src/aper/charstring.rs
@@ -23,7 +23,8 @@ pub(super) fn generate_aper_codec_for_asn_charstring(
             syn::Ident::new("encode_printable_string", Span::call_site()),
         ),
 
-        "VisibleString" => (
+        // In the ALIGNED variant both take eight bits a character.
+        "VisibleString" | "IA5String" => (
             syn::Ident::new("decode_visible_string", Span::call_site()),
             syn::Ident::new("encode_visible_string", Span::call_site()),
         ),
diff --git a/codecs_derive/src/aper/mod.rs b/codecs_derive/src/aper/mod.rs
index d052808..181234b 100644
--- a/codecs_derive/src/aper/mod.rs
+++ b/codecs_derive/src/aper/mod.rs
@@ -27,7 +27,7 @@ pub(crate) fn generate_codec(
         "ENUMERATED" => enumerated::generate_aper_codec_for_asn_enumerated(ast, params),
         "BITSTRING" => bitstring::generate_aper_codec_for_asn_bitstring(ast, params),
         "OCTET-STRING" => octetstring::generate_aper_codec_for_asn_octetstring(ast, params),
-        "UTF8String" | "PrintableString" | "VisibleString" => {
+        "UTF8String" | "PrintableString" | "VisibleString" | "IA5String" => {
             charstring::generate_aper_codec_for_asn_charstring(ast, params)
         }
         "NULL" => null::generate_aper_codec_for_asn_null(ast, params),
-- 
2.43.0

