From 3cf70891e5645807a3a096330c5af00081a0c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 01/28] fix: read_all surfaces I/O errors instead of inventing
 a byte

Reader::end() treated any read error other than end of input as a
successful probe and buffered a zero byte that was never read. Containers
read to the end now report the error.
---
 src/impls/hashmap.rs |  2 +-
 src/impls/hashset.rs |  2 +-
 src/impls/vec.rs     |  2 +-
 src/reader.rs        | 36 ++++++++++++++++++++++--------------
 4 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index 9ebff2e..1406636 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -56,7 +56,7 @@ where
     let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
 
     loop {
-        if reader.end() {
+        if reader.try_end()? {
             break;
         }
         let val = <(K, V)>::from_reader_with_ctx(reader, ctx)?;
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index bd9ba58..a87689c 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -54,7 +54,7 @@ where
     let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
 
     loop {
-        if reader.end() {
+        if reader.try_end()? {
             break;
         }
         let val = <T>::from_reader_with_ctx(reader, ctx)?;
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 4140ae7..bc33d94 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -99,7 +99,7 @@ where
 
     let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
     loop {
-        if reader.end() {
+        if reader.try_end()? {
             break;
         }
         let val = <T>::from_reader_with_ctx(reader, ctx)?;
diff --git a/src/reader.rs b/src/reader.rs
index fe3217d..0fd76f6 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -150,26 +150,34 @@ impl<R: Read + Seek> Reader<R> {
     /// The byte that was read will be internally buffered and will *not* be included in the `bits_read` count.
     #[inline]
     pub fn end(&mut self) -> bool {
+        self.try_end().unwrap_or(false)
+    }
+
+    /// As [end](Reader::end), but reports why the end could not be determined
+    /// when the underlying reader fails.
+    #[inline]
+    pub(crate) fn try_end(&mut self) -> Result<bool, DekuError> {
         if self.leftover.is_some() {
             #[cfg(feature = "logging")]
             log::trace!("not end");
-            false
-        } else {
-            let mut buf = [0; 1];
-            if let Err(e) = self.inner.read_exact(&mut buf) {
-                if e.kind() == ErrorKind::UnexpectedEof {
-                    #[cfg(feature = "logging")]
-                    log::trace!("end");
-                    return true;
-                }
+            return Ok(false);
+        }
+
+        let mut buf = [0; 1];
+        if let Err(e) = self.inner.read_exact(&mut buf) {
+            if e.kind() == ErrorKind::UnexpectedEof {
+                #[cfg(feature = "logging")]
+                log::trace!("end");
+                return Ok(true);
             }
+            return Err(DekuError::Io(e.kind()));
+        }
 
-            #[cfg(feature = "logging")]
-            log::trace!("not end: read {:02x?}", buf);
+        #[cfg(feature = "logging")]
+        log::trace!("not end: read {:02x?}", buf);
 
-            self.leftover = Some(Leftover::Byte(buf[0]));
-            false
-        }
+        self.leftover = Some(Leftover::Byte(buf[0]));
+        Ok(false)
     }
 
     /// Used at the beginning of `from_reader`.
-- 
2.43.0


From 01bb9ca584a64c0e0337a99d4ad7940a5ff08f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 02/28] fix: bit reads of whole bytes surface I/O errors

The bulk loops of read_bits_into only handled end of input and took a
zero byte for any other error.
---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 0fd76f6..d0a849e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -321,6 +321,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
@@ -334,6 +335,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
-- 
2.43.0


From a9c2e10cc48b560998a4364a35689474b53e7262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 03/28] fix: counted Vec<u8> reads from the current bit
 position of any stream

Reading it in bulk used Lsb0 after unaligned reads, ignored a byte buffered
by end(), required the stream to seek, and was used even when the elements
have a size, bit order or context of their own.
---
 deku-derive/src/macros/deku_read.rs |  4 +++
 src/impls/vec.rs                    | 39 ++++++++++++++---------------
 src/reader.rs                       | 19 ++++++++++++++
 3 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 89d3839..660c7dd 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -832,6 +832,10 @@ fn emit_field_read(
                     }
                 }
             }
+            // Only plain bytes can be read in bulk, not elements with attributes of their own
+            #[cfg(feature = "bits")]
+            let is_vec_u8 = is_vec_u8 && f.bits.is_none() && field_bit_order.is_none();
+            let is_vec_u8 = is_vec_u8 && f.bytes.is_none() && f.ctx.is_none();
             if is_vec_u8 {
                 quote! {
                     {
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index bc33d94..d3999a4 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -1,6 +1,6 @@
 use core::mem;
 
-use no_std_io::io::{Read, Seek, SeekFrom, Write};
+use no_std_io::io::{Read, Seek, Write};
 
 use alloc::vec::Vec;
 
@@ -18,26 +18,25 @@ impl DekuReader<'_, ReadExact> for Vec<u8> {
     where
         Self: Sized,
     {
-        // Check remaining bytes via the inner reader before allocating,
-        // so a bogus count from untrusted input doesn't cause a huge
-        // allocation that will immediately fail on read.
-        let inner = reader.as_mut();
-        let pos = inner
-            .stream_position()
-            .map_err(|e| DekuError::Io(e.kind()))?;
-        let end = inner
-            .seek(SeekFrom::End(0))
-            .map_err(|e| DekuError::Io(e.kind()))?;
-        inner
-            .seek(SeekFrom::Start(pos))
-            .map_err(|e| DekuError::Io(e.kind()))?;
-
-        if (end - pos) < exact.0 as u64 {
-            return Err(DekuError::Incomplete(NeedSize::new(exact.0 * 8)));
+        // Read piecewise, so a bogus count from untrusted input doesn't cause a
+        // huge allocation that will immediately fail on read. Nothing is
+        // allocated before there is something to hold.
+        let mut chunk = [0x00; 1024];
+        let mut bytes = Vec::new();
+        while bytes.len() < exact.0 {
+            let amt = core::cmp::min(chunk.len(), exact.0 - bytes.len());
+            let mut filled = 0;
+            while filled < amt {
+                filled += match reader.read_some(&mut chunk[filled..amt]) {
+                    Ok(0) | Err(DekuError::Incomplete(_)) => {
+                        let need = NeedSize::new(exact.0.saturating_mul(8));
+                        return Err(DekuError::Incomplete(need));
+                    }
+                    ret => ret?,
+                };
+            }
+            bytes.extend_from_slice(&chunk[..amt]);
         }
-
-        let mut bytes = alloc::vec![0x00; exact.0];
-        let _ = reader.read_bytes(exact.0, &mut bytes, Order::Lsb0)?;
         Ok(bytes)
     }
 }
diff --git a/src/reader.rs b/src/reader.rs
index d0a849e..4ed9f9f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -512,6 +512,25 @@ impl<R: Read + Seek> Reader<R> {
         self.read_bytes_other(amt, buf, order)
     }
 
+    /// Read at least one byte, unless `buf` is empty or the input is at its end
+    #[cfg(feature = "alloc")]
+    pub(crate) fn read_some(&mut self, buf: &mut [u8]) -> Result<usize, DekuError> {
+        if self.leftover.is_some() {
+            self.read_bytes(buf.len(), buf, Order::Msb0)?;
+            return Ok(buf.len());
+        }
+        loop {
+            match self.inner.read(buf) {
+                Ok(amt) => {
+                    self.bits_read += amt * 8;
+                    return Ok(amt);
+                }
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                Err(e) => return Err(DekuError::Io(e.kind())),
+            }
+        }
+    }
+
     fn read_bytes_other(
         &mut self,
         amt: usize,
-- 
2.43.0


From 76b4683420ff37b7937f7fd05f33d9fe6975b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 04/28] fix: reading no bytes after probing for the end does
 not panic

---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 4ed9f9f..ce48d8c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -538,6 +538,7 @@ impl<R: Read + Seek> Reader<R> {
         order: Order,
     ) -> Result<ReaderRet, DekuError> {
         match self.leftover {
+            _ if amt == 0 => Ok(ReaderRet::Bytes),
             Some(Leftover::Byte(byte)) => self.read_bytes_leftover(buf, byte, amt),
             #[cfg(feature = "bits")]
             Some(Leftover::Bits(_)) => {
@@ -696,6 +697,9 @@ impl<R: Read + Seek> Reader<R> {
         buf: &mut [u8; N],
         byte: u8,
     ) -> Result<(), DekuError> {
+        if N == 0 {
+            return Ok(());
+        }
         buf[0] = byte;
 
         #[cfg(feature = "logging")]
-- 
2.43.0


From a4a3a915974ee1b42a189f42a7ed00c0d940cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 05/28] fix: skipping bits reads them instead of seeking over
 them

A skip of whole bytes seeked, so padding past the end of the input was
accepted, streams that cannot seek were refused, a byte buffered by end()
was skipped twice, and an offset of from_reader was counted from the start
of the stream rather than from where reading started.
---
 src/reader.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index ce48d8c..0142d65 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -199,22 +199,17 @@ impl<R: Read + Seek> Reader<R> {
                 self.read_bits_into(&mut buf[..needed], _order)?;
             }
 
-            let bytes_amt = amt / 8;
-            let bits_amt = amt % 8;
-
-            // first, seek with bytes
-            if bytes_amt != 0 {
-                debug_assert_eq!(self.bits_read % 8, 0);
-                self.seek(SeekFrom::Current(
-                    i64::try_from(bytes_amt).expect("could not convert seek usize into i64"),
-                ))
-                .map_err(|e| DekuError::Io(e.kind()))?;
+            // whole bytes are read, as a seek would not notice the end of the input
+            let mut byte = [0u8; 1];
+            while amt >= 8 {
+                self.read_bytes_const_into(&mut byte, _order)?;
+                amt -= 8;
             }
 
             // Save, and keep the leftover bits since the read will most likely be less than a byte
             // Note that the leftover bits are kept in self.leftover
             let mut buf = bitarr!(u8, Msb0; 0; 8);
-            self.read_bits_into(&mut buf[..bits_amt], _order)?;
+            self.read_bits_into(&mut buf[..amt], _order)?;
         }
 
         #[cfg(not(feature = "bits"))]
-- 
2.43.0


From 889fa778b4d5fba307eb52bd8281f0acfaa2976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 06/28] fix: relative seeks count from the read position, not
 from a buffered byte

After end() buffered a byte, seeking from the current position landed one
byte too far.
---
 src/reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 0142d65..e3c50a0 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -49,8 +49,15 @@ impl<R: Read + Seek> Seek for Reader<R> {
         log::trace!("seek: {pos:?}");
 
         // clear leftover
-        self.leftover = None;
+        let leftover = self.leftover.take();
 
+        // a byte buffered by `end()` has been taken from the inner reader, but is not read yet
+        let pos = match (pos, leftover) {
+            (SeekFrom::Current(amt), Some(Leftover::Byte(_))) => {
+                SeekFrom::Current(amt.saturating_sub(1))
+            }
+            (pos, _) => pos,
+        };
         let new_pos = self.inner.seek(pos)?;
         self.bits_read = usize::try_from(new_pos)
             .unwrap_or(usize::MAX)
-- 
2.43.0


From e4f46f3842b7e7c921eb42bbda9733eda651c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 07/28] fix: bit fields of size zero read as zero and write
 nothing

---
 src/impls/primitive.rs | 9 +++++++++
 src/writer.rs          | 7 +++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 8ab9e29..7e0407e 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -397,6 +397,9 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::from_le_bytes([0; MAX_TYPE_BITS / 8]));
+                }
                 // Fast path: big-endian, and `Order::default()` is Msb0. Reads the
                 // field straight into an integer, with no `BitSlice` in between.
                 if !endian.is_le() && size.0 > 0 && size.0 <= 64 {
@@ -429,6 +432,9 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::from_le_bytes([0; MAX_TYPE_BITS / 8]));
+                }
                 // Fast path: big-endian, Msb0. See the `(Endian, BitSize)` impl above.
                 if !endian.is_le() && order == Order::Msb0 && size.0 > 0 && size.0 <= 64 {
                     let value = reader.read_bits_uint_msb0(size.0)? as $inner;
@@ -623,6 +629,9 @@ macro_rules! ImplDekuReadSignExtend {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::from_le_bytes([0; MAX_TYPE_BITS / 8]));
+                }
                 let mut bits = ::bitvec::array::BitArray::<[u8; { MAX_TYPE_BITS / 8 }], Msb0>::new(
                     [0; { MAX_TYPE_BITS / 8 }],
                 );
diff --git a/src/writer.rs b/src/writer.rs
index 0a6c641..23b0713 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -62,7 +62,7 @@ impl<W: Write + Seek> Writer<W> {
         self.leftover.0.as_bitslice().iter().by_vals().collect()
     }
 
-    /// Writes the low `amt` bits (`1..=64`) of `value`, most-significant-bit
+    /// Writes the low `amt` bits (`0..=64`) of `value`, most-significant-bit
     /// first. The integer mirror of `Reader::read_bits_uint_msb0`.
     ///
     /// Only valid when the pending leftover is `Msb0`; the caller checks that.
@@ -73,8 +73,11 @@ impl<W: Write + Seek> Writer<W> {
     #[inline]
     #[cfg(feature = "bits")]
     pub(crate) fn write_bits_uint_msb0(&mut self, value: u64, amt: usize) -> Result<(), DekuError> {
-        debug_assert!((1..=64).contains(&amt));
+        debug_assert!(amt <= 64);
         debug_assert_eq!(self.leftover.1, Order::Msb0);
+        if amt == 0 {
+            return Ok(());
+        }
 
         let (lead, lead_len) = self.leftover.0.as_msb0_byte();
         // Leftover bits first, then the value's low `amt` bits: at most 7 + 64.
-- 
2.43.0


From 7acdb69f77b7ff2fbf3df5d8ffde4f7fd409a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:41 +0000
Subject: [PATCH 08/28] fix: signed fields sized in bytes are sign-extended
 like those sized in bits

---
 src/impls/primitive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 7e0407e..b1b3a92 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -662,7 +662,7 @@ macro_rules! ImplDekuReadSignExtend {
                 let ret = reader.read_bytes(size.0, &mut buf, order)?;
                 let a = match ret {
                     ReaderRet::Bytes => {
-                        if endian.is_le() {
+                        let value = if endian.is_le() {
                             <$typ>::from_le_bytes(buf.try_into().unwrap())
                         } else {
                             if size.0 != core::mem::size_of::<$typ>() {
@@ -671,6 +671,13 @@ macro_rules! ImplDekuReadSignExtend {
                                 buf[..padding].fill(0x00);
                             }
                             <$typ>::from_be_bytes(buf.try_into().unwrap())
+                        };
+                        if size.0 == 0 {
+                            value
+                        } else {
+                            // extend the sign of a field smaller than its container
+                            let shift = (MAX_TYPE_BYTES - size.0) * 8;
+                            value << shift >> shift
                         }
                     }
                     #[cfg(all(feature = "bits", feature = "alloc"))]
-- 
2.43.0


From 2cc460b6c1050c846b0fb17b64129522feda10b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 09/28] fix: signed bit fields with a bit order accept exactly
 the values that fit

---
 src/impls/primitive.rs | 112 +++++++++++++++++------------------------
 1 file changed, 47 insertions(+), 65 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index b1b3a92..26ae037 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -810,6 +810,32 @@ macro_rules! ForwardDekuRead {
     };
 }
 
+/// The fewest bits that represent the value with these big-endian bytes
+#[cfg(feature = "bits")]
+fn significant_bits(be_bytes: &[u8], signed: bool) -> usize {
+    let negative = signed && be_bytes[0] & 0x80 != 0;
+    let sign = if negative { 0xff } else { 0x00 };
+    let magnitude = match be_bytes.iter().position(|b| *b != sign) {
+        Some(i) => (be_bytes.len() - i) * 8 - ((be_bytes[i] ^ sign).leading_zeros() as usize),
+        None => 0,
+    };
+    // two's complement takes one more bit for the sign
+    if signed && (negative || magnitude != 0) {
+        magnitude + 1
+    } else {
+        magnitude
+    }
+}
+
+macro_rules! IsSigned {
+    (Signed) => {
+        true
+    };
+    (Unsigned) => {
+        false
+    };
+}
+
 macro_rules! ImplDekuWrite {
     ($typ:ty, $signed_type:ident) => {
         #[cfg(feature = "bits")]
@@ -839,23 +865,20 @@ macro_rules! ImplDekuWrite {
                     ));
                 }
 
+                let be_bytes = self.to_be_bytes();
+                let significant = significant_bits(&be_bytes, IsSigned!($signed_type));
+                if significant > bit_size {
+                    return Err(deku_error!(
+                        DekuError::InvalidParam,
+                        "bit size of input is larger than requested size",
+                        "{} exceeds {}",
+                        significant,
+                        bit_size
+                    ));
+                }
+
                 match (endian, order) {
                     (Endian::Little, Order::Lsb0) | (Endian::Little, Order::Msb0) => {
-                        let input_bits_lsb = input.view_bits::<Lsb0>();
-                        if let Some(last) = input_bits_lsb.last_one() {
-                            let last = last + 1;
-                            let max = bit_size;
-                            if last > max {
-                                return Err(deku_error!(
-                                    DekuError::InvalidParam,
-                                    "bit size of input is larger than requested size",
-                                    "{} exceeds {}",
-                                    last,
-                                    bit_size
-                                ));
-                            }
-                        }
-
                         let mut remaining_bits = bit_size;
                         for chunk in input_bits.chunks(8) {
                             if chunk.len() > remaining_bits {
@@ -871,20 +894,6 @@ macro_rules! ImplDekuWrite {
                         }
                     }
                     (Endian::Big, Order::Lsb0) => {
-                        const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
-                        if let Some(first) = input_bits.first_one() {
-                            let max = MAX_TYPE_BITS - bit_size;
-                            if max > first {
-                                return Err(deku_error!(
-                                    DekuError::InvalidParam,
-                                    "bit size of input is larger than requested size",
-                                    "{} exceeds {}",
-                                    MAX_TYPE_BITS - first,
-                                    bit_size
-                                ));
-                            }
-                        }
-
                         if bit_size <= 8 {
                             writer.write_bits_order(
                                 &input_bits[input_bits.len() - bit_size..],
@@ -907,30 +916,8 @@ macro_rules! ImplDekuWrite {
                         }
                     }
                     (Endian::Big, Order::Msb0) => {
-                        const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
-
-                        // Fast path, ahead of the bit-slice scan. Significant-bit
-                        // count from the big-endian bytes is the same test as
-                        // `first_one`: that check errors when
-                        // `MAX_TYPE_BITS - bit_size > first`, i.e. when
-                        // `MAX_TYPE_BITS - first` (the significant bits) exceeds
-                        // `bit_size`.
+                        // Fast path, ahead of the bit-slice view.
                         if bit_size <= 64 && writer.leftover.1 == Order::Msb0 {
-                            let significant = match input.iter().position(|b| *b != 0) {
-                                Some(i) => {
-                                    (input.len() - i) * 8 - (input[i].leading_zeros() as usize)
-                                }
-                                None => 0,
-                            };
-                            if significant > bit_size {
-                                return Err(deku_error!(
-                                    DekuError::InvalidParam,
-                                    "bit size of input is larger than requested size",
-                                    "{} exceeds {}",
-                                    significant,
-                                    bit_size
-                                ));
-                            }
                             // The value fits in `bit_size <= 64` bits, so the low
                             // eight bytes carry all of it even for a 128-bit
                             // container.
@@ -941,19 +928,6 @@ macro_rules! ImplDekuWrite {
                             return writer.write_bits_uint_msb0(value, bit_size);
                         }
 
-                        if let Some(first) = input_bits.first_one() {
-                            let max = MAX_TYPE_BITS - bit_size;
-                            if max > first {
-                                return Err(deku_error!(
-                                    DekuError::InvalidParam,
-                                    "bit size of input is larger than requested size",
-                                    "{} exceeds {}",
-                                    MAX_TYPE_BITS - first,
-                                    bit_size
-                                ));
-                            }
-                        }
-
                         // big endian
                         // Example read 10 bits u32 [0xAB, 0b11_000000]
                         // => [00000000, 00000000, 00000010, 10101111]
@@ -1128,6 +1102,14 @@ macro_rules! ImplDekuWriteDetails {
                     ));
                 }
 
+                if bit_size == 0 && *self != 0 {
+                    return Err(deku_error!(
+                        DekuError::InvalidParam,
+                        "bit size of input is larger than bit requested size",
+                        "a value other than 0 exceeds 0"
+                    ));
+                }
+
                 if matches!(endian, Endian::Little) {
                     // Check if this is a value that will fit inside the required bits, if
                     // not, throw an error
-- 
2.43.0


From 750aec5a477b88ee7c7a47f1400e9b28b11047ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 10/28] fix: big endian Lsb0 bit fields are written as they are
 read

---
 src/impls/primitive.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 26ae037..4a23dd2 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -867,7 +867,20 @@ macro_rules! ImplDekuWrite {
 
                 let be_bytes = self.to_be_bytes();
                 let significant = significant_bits(&be_bytes, IsSigned!($signed_type));
-                if significant > bit_size {
+
+                // Big endian and Lsb0: whole bytes, then a last byte that is only
+                // partly filled, whose upper bits are read as zero.
+                let partial = match (endian, order) {
+                    (Endian::Big, Order::Lsb0) if bit_size > 8 => bit_size % 8,
+                    _ => 0,
+                };
+                let max = if partial == 0 || IsSigned!($signed_type) {
+                    bit_size
+                } else {
+                    bit_size.next_multiple_of(8)
+                };
+                let overfull = partial != 0 && be_bytes[be_bytes.len() - 1] >> partial != 0;
+                if significant > max || overfull {
                     return Err(deku_error!(
                         DekuError::InvalidParam,
                         "bit size of input is larger than requested size",
@@ -900,8 +913,11 @@ macro_rules! ImplDekuWrite {
                                 order,
                             )?;
                         } else {
+                            // The value is read from as many whole bytes as `bit_size`
+                            // needs, the last of which may be partly filled.
                             let mut remaining_bits = bit_size;
-                            for chunk in input_bits.chunks(8) {
+                            let skip = input.len() - bit_size.div_ceil(8);
+                            for chunk in input_bits[skip * 8..].chunks(8) {
                                 if chunk.len() > remaining_bits {
                                     writer.write_bits_order(
                                         &chunk[chunk.len() - remaining_bits..],
-- 
2.43.0


From fc88163c1c2ab9d67fbc8212eb63bb6e5c8c7c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 11/28] fix: a bit order switched at a byte boundary starts
 afresh when writing

---
 src/writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 23b0713..29cb16d 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -349,6 +349,11 @@ impl<W: Write + Seek> Writer<W> {
         bits: &BitSlice<u8, Msb0>,
         order: Order,
     ) -> Result<(), DekuError> {
+        // nothing pending: start afresh in the new order
+        if self.leftover.0.is_empty() {
+            self.leftover.1 = order;
+        }
+
         match self.leftover.1 {
             Order::Msb0 => match order {
                 Order::Msb0 => self.write_bits_order_msb_msb(bits, order),
-- 
2.43.0


From 62d73e78e11e645471c6e41b6f02edb126775c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 12/28] fix: whole bytes after an unaligned Lsb0 field are
 written in the order they are read

---
 src/impls/primitive.rs | 29 ++++++++++++++---------------
 src/writer.rs          | 24 ++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 4a23dd2..0e99fb0 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -140,10 +140,10 @@ impl DekuWriter<(Endian, ByteSize, Order)> for u8 {
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _, _): (Endian, ByteSize, Order),
+        (_, _, order): (Endian, ByteSize, Order),
     ) -> Result<(), DekuError> {
         let input = self.to_le_bytes();
-        writer.write_bytes(&input)?;
+        writer.write_bytes_order(&input, order)?;
         Ok(())
     }
 }
@@ -966,6 +966,17 @@ macro_rules! ImplDekuWrite {
                 &self,
                 writer: &mut Writer<W>,
                 (endian, size): (Endian, ByteSize),
+            ) -> Result<(), DekuError> {
+                <$typ>::to_writer(self, writer, (endian, size, Order::default()))
+            }
+        }
+
+        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
+            #[inline(always)]
+            fn to_writer<W: Write + Seek>(
+                &self,
+                writer: &mut Writer<W>,
+                (endian, size, order): (Endian, ByteSize, Order),
             ) -> Result<(), DekuError> {
                 let input = match endian {
                     Endian::Little => self.to_le_bytes(),
@@ -989,22 +1000,10 @@ macro_rules! ImplDekuWrite {
                     &input[..size.0 as usize]
                 };
 
-                writer.write_bytes(&input)?;
+                writer.write_bytes_order(&input, order)?;
                 Ok(())
             }
         }
-
-        /// When using Endian and ByteSize, Order is not used
-        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
-            #[inline]
-            fn to_writer<W: Write + Seek>(
-                &self,
-                writer: &mut Writer<W>,
-                (endian, size, _order): (Endian, ByteSize, Order),
-            ) -> Result<(), DekuError> {
-                <$typ>::to_writer(self, writer, (endian, size))
-            }
-        }
     };
 }
 
diff --git a/src/writer.rs b/src/writer.rs
index 29cb16d..67c506e 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -406,6 +406,30 @@ impl<W: Write + Seek> Writer<W> {
         Ok(())
     }
 
+    /// Write `buf` into `Writer`, packing its bits in `order` when unaligned
+    #[cfg(feature = "bits")]
+    #[inline(always)]
+    pub(crate) fn write_bytes_order(&mut self, buf: &[u8], order: Order) -> Result<(), DekuError> {
+        if order == Order::Lsb0 && !self.leftover.0.is_empty() {
+            for byte in buf {
+                self.write_bits_order(BitSlice::from_element(byte), order)?;
+            }
+            return Ok(());
+        }
+        self.write_bytes(buf)
+    }
+
+    /// Write `buf` into `Writer`, the order is only of use to bits
+    #[cfg(not(feature = "bits"))]
+    #[inline(always)]
+    pub(crate) fn write_bytes_order(
+        &mut self,
+        buf: &[u8],
+        _order: crate::ctx::Order,
+    ) -> Result<(), DekuError> {
+        self.write_bytes(buf)
+    }
+
     /// Write all remaining bits into `Writer`, adding empty bits to the end so that we can write
     /// into a byte buffer
     #[inline]
-- 
2.43.0


From f717bc018e2b37749a52299fb02679ab71bac658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:33 +0000
Subject: [PATCH 13/28] fix: u8 fields honour their size in bytes

---
 src/impls/primitive.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 0e99fb0..8cb7c89 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -51,9 +51,21 @@ impl DekuReader<'_, (Endian, ByteSize, Order)> for u8 {
     #[inline(always)]
     fn from_reader_with_ctx<R: Read + Seek>(
         reader: &mut Reader<R>,
-        (_endian, _size, order): (Endian, ByteSize, Order),
+        (_endian, size, order): (Endian, ByteSize, Order),
     ) -> Result<u8, DekuError> {
         const MAX_TYPE_BYTES: usize = core::mem::size_of::<u8>();
+        if size.0 > MAX_TYPE_BYTES {
+            return Err(deku_error!(
+                DekuError::Parse,
+                "too much data",
+                "container of {} bytes cannot hold {} bytes",
+                MAX_TYPE_BYTES,
+                size.0
+            ));
+        }
+        if size.0 == 0 {
+            return Ok(0);
+        }
         let mut buf = [0; MAX_TYPE_BYTES];
         reader.read_bytes_const_into::<MAX_TYPE_BYTES>(&mut buf, order)?;
         Ok(<u8>::from_be_bytes(buf))
@@ -135,30 +147,37 @@ impl DekuWriter<(Endian, BitSize, Order)> for u8 {
 }
 
 impl DekuWriter<(Endian, ByteSize, Order)> for u8 {
-    /// Ignore endian and byte_size, as this is a `u8`
+    /// Ignore endian, as this is a `u8`
     #[inline(always)]
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _, order): (Endian, ByteSize, Order),
+        (_, size, order): (Endian, ByteSize, Order),
     ) -> Result<(), DekuError> {
         let input = self.to_le_bytes();
-        writer.write_bytes_order(&input, order)?;
+        if size.0 > input.len() {
+            return Err(deku_error!(
+                DekuError::InvalidParam,
+                "byte size is larger than input",
+                "{} exceeds {}",
+                size.0,
+                input.len()
+            ));
+        }
+        writer.write_bytes_order(&input[..size.0], order)?;
         Ok(())
     }
 }
 
 impl DekuWriter<(Endian, ByteSize)> for u8 {
-    /// Ignore endian and byte_size, as this is a `u8`
+    /// Ignore endian, as this is a `u8`
     #[inline(always)]
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _): (Endian, ByteSize),
+        (endian, size): (Endian, ByteSize),
     ) -> Result<(), DekuError> {
-        let input = self.to_le_bytes();
-        writer.write_bytes(&input)?;
-        Ok(())
+        <u8>::to_writer(self, writer, (endian, size, Order::default()))
     }
 }
 
-- 
2.43.0


From 408a02f8859c4191d1a54c4bd059988593749f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 14/28] fix: a seek amount that does not convert is an error,
 not a panic

---
 deku-derive/src/macros/deku_read.rs  | 27 +++++++++++++++++++++------
 deku-derive/src/macros/deku_write.rs | 27 +++++++++++++++++++++------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 660c7dd..8a6ab07 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -48,7 +48,9 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -59,7 +61,9 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -70,7 +74,9 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -685,7 +691,10 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -695,7 +704,10 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -705,7 +717,10 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                let seek_amt = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 461c5e8..cb86b39 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -38,7 +38,9 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -49,7 +51,9 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -60,7 +64,9 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -653,7 +659,10 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -663,7 +672,10 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -673,7 +685,10 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                let seek_amt = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
-- 
2.43.0


From a1725515811888c27972f78274feae20c6219461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 15/28] fix: padding in bytes is computed in usize, whatever
 the type of its expression

---
 deku-derive/src/macros/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/macros/mod.rs b/deku-derive/src/macros/mod.rs
index 40ee333..c30b445 100644
--- a/deku-derive/src/macros/mod.rs
+++ b/deku-derive/src/macros/mod.rs
@@ -384,12 +384,28 @@ fn pad_bits(
     bit_order: Option<&LitStr>,
     emit_padding: fn(&TokenStream, bit_order: Option<&LitStr>) -> TokenStream,
 ) -> TokenStream {
+    let crate_ = get_crate_name();
+    // in usize, as the type of the expression may be too small for the product
+    let to_bits = |pad_bytes: &TokenStream, pad_bits: TokenStream| {
+        quote! {
+            {
+                use core::convert::TryFrom;
+                match (usize::try_from(#pad_bytes), usize::try_from(#pad_bits)) {
+                    (Ok(bytes), Ok(bits)) => bytes.checked_mul(8).and_then(|pad| pad.checked_add(bits)),
+                    _ => None,
+                }
+                .ok_or_else(||
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(((#pad_bytes) * 8)))
+                )?
+            }
+        }
+    };
     match (bits, bytes) {
         (Some(pad_bits), Some(pad_bytes)) => {
-            emit_padding(&quote! { (#pad_bits) + ((#pad_bytes) * 8) }, bit_order)
+            emit_padding(&to_bits(pad_bytes, pad_bits.clone()), bit_order)
         }
         (Some(pad_bits), None) => emit_padding(pad_bits, bit_order),
-        (None, Some(pad_bytes)) => emit_padding(&quote! {((#pad_bytes) * 8)}, bit_order),
+        (None, Some(pad_bytes)) => emit_padding(&to_bits(pad_bytes, quote!(0usize)), bit_order),
         (None, None) => quote!(),
     }
 }
-- 
2.43.0


From 22ef5fb37e519f11005dc36c576f0d8467e58f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:14 +0000
Subject: [PATCH 16/28] fix: a count or size from the input neither
 preallocates nor overflows

---
 src/impls/hashmap.rs | 8 +++++---
 src/impls/hashset.rs | 6 +++---
 src/impls/mod.rs     | 9 +++++++++
 src/impls/vec.rs     | 6 +++---
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index 1406636..bec558e 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -28,7 +28,8 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &(K, V)) -> bool,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res =
+        HashMap::with_capacity_and_hasher(super::prealloc::<(K, V)>(capacity), S::default());
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -53,7 +54,8 @@ where
     S: BuildHasher + Default,
     Ctx: Copy,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res =
+        HashMap::with_capacity_and_hasher(super::prealloc::<(K, V)>(capacity), S::default());
 
     loop {
         if reader.try_end()? {
@@ -155,7 +157,7 @@ where
 
             // Read until a given quantity of byte bits have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashmap
                 if bit_size == 0 {
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index a87689c..899891a 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -27,7 +27,7 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &T) -> bool,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashSet::with_capacity_and_hasher(super::prealloc::<T>(capacity), S::default());
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -51,7 +51,7 @@ where
     S: BuildHasher + Default,
     Ctx: Copy,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashSet::with_capacity_and_hasher(super::prealloc::<T>(capacity), S::default());
 
     loop {
         if reader.try_end()? {
@@ -140,7 +140,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashset
                 if bit_size == 0 {
diff --git a/src/impls/mod.rs b/src/impls/mod.rs
index 6b9905a..8bba7d1 100644
--- a/src/impls/mod.rs
+++ b/src/impls/mod.rs
@@ -27,3 +27,12 @@ mod hashset;
 
 #[cfg(feature = "alloc")]
 mod boxed;
+
+/// Amount of elements to allocate ahead of reading them. The capacity asked for
+/// may come from the input, so memory beyond this grows with what is read.
+#[cfg(feature = "alloc")]
+fn prealloc<T>(capacity: Option<usize>) -> usize {
+    const MAX_BYTES: usize = 4096;
+    let max = MAX_BYTES / core::mem::size_of::<T>().max(1);
+    capacity.unwrap_or(0).min(max.max(1))
+}
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index d3999a4..caf99d9 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -64,7 +64,7 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    let mut res = Vec::with_capacity(super::prealloc::<T>(capacity));
 
     let start_read = reader.bits_read;
 
@@ -96,7 +96,7 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    let mut res = Vec::with_capacity(super::prealloc::<T>(capacity));
     loop {
         if reader.try_end()? {
             break;
@@ -157,7 +157,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty vector
                 if bit_size == 0 {
-- 
2.43.0


From 047408c2b522be8ca99f8b303308f5aa6a5961fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:12 +0000
Subject: [PATCH 17/28] fix: the stored id of an id_pat variant is written as
 it is read

---
 deku-derive/src/macros/deku_write.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index cb86b39..4165b68 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -333,7 +333,8 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             let field_writes = emit_field_writes(
                 input,
                 &variant.fields.as_ref(),
-                variant.id_pat.is_some(),
+                // an id from the context is not stored in the first field
+                variant.id_pat.is_some() && id.is_none(),
                 None,
                 &ident,
             )?;
@@ -622,7 +623,7 @@ fn emit_field_write(
         // TODO: This should error on some attributes that don't make sense aren't used?
         // Such as magic, seek*
         let crate_ = super::get_crate_name();
-        let field_endian = input.id_endian.as_ref();
+        let field_endian = input.id_endian.as_ref().or(input.endian.as_ref());
         #[cfg(feature = "bits")]
         let field_bits = input.bits.as_ref();
         #[cfg(not(feature = "bits"))]
-- 
2.43.0


From 847ad7414540d9efb19f91398f6c69c07e0791a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 18/28] fix: seek attributes of an enum are followed

---
 deku-derive/src/macros/deku_read.rs  | 111 +++++++++++++++------------
 deku-derive/src/macros/deku_write.rs | 111 +++++++++++++++------------
 2 files changed, 120 insertions(+), 102 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 8a6ab07..96969bd 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -43,57 +43,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         fields,
     } = DekuDataStruct::try_from(input)?;
 
-    let seek = if let Some(num) = &input.seek_from_current {
-        quote! {
-            {
-                use ::#crate_::no_std_io::Seek;
-                use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).map_err(|_|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
-                )?;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Current(seek_amt)) {
-                    return Err(::#crate_::DekuError::Io(e.kind()));
-                }
-            }
-        }
-    } else if let Some(num) = &input.seek_from_end {
-        quote! {
-            {
-                use ::#crate_::no_std_io::Seek;
-                use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).map_err(|_|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
-                )?;
-                if let Err(e) = __deku_reader.seek(SeekFrom::End(seek_amt)) {
-                    return Err(::#crate_::DekuError::Io(e.kind()));
-                }
-            }
-        }
-    } else if let Some(num) = &input.seek_from_start {
-        quote! {
-            {
-                use ::#crate_::no_std_io::Seek;
-                use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).map_err(|_|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
-                )?;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Start(seek_amt)) {
-                    return Err(::#crate_::DekuError::Io(e.kind()));
-                }
-            }
-        }
-    } else if input.seek_rewind {
-        quote! {
-            {
-                use ::#crate_::no_std_io::Seek;
-                if let Err(e) = __deku_reader.rewind() {
-                    return Err(::#crate_::DekuError::Io(e.kind()));
-                }
-            }
-        }
-    } else {
-        quote! {}
-    };
+    let seek = emit_seek(input);
 
     let magic_read = emit_magic_read(input);
 
@@ -230,6 +180,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
 
     let ident_as_string = ident.to_string();
 
+    let seek = emit_seek(input);
     let magic_read = emit_magic_read(input);
 
     let mut has_default_match = false;
@@ -459,6 +410,8 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         use core::convert::TryFrom;
         use ::#crate_::DekuReader as _;
 
+        #seek
+
         #magic_read
 
         #variant_read
@@ -525,6 +478,62 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
     Ok(tokens)
 }
 
+/// Seek to the position declared for the whole type
+fn emit_seek(input: &DekuData) -> TokenStream {
+    let crate_ = super::get_crate_name();
+    if let Some(num) = &input.seek_from_current {
+        quote! {
+            {
+                use ::#crate_::no_std_io::Seek;
+                use ::#crate_::no_std_io::SeekFrom;
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::Current(seek_amt)) {
+                    return Err(::#crate_::DekuError::Io(e.kind()));
+                }
+            }
+        }
+    } else if let Some(num) = &input.seek_from_end {
+        quote! {
+            {
+                use ::#crate_::no_std_io::Seek;
+                use ::#crate_::no_std_io::SeekFrom;
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::End(seek_amt)) {
+                    return Err(::#crate_::DekuError::Io(e.kind()));
+                }
+            }
+        }
+    } else if let Some(num) = &input.seek_from_start {
+        quote! {
+            {
+                use ::#crate_::no_std_io::Seek;
+                use ::#crate_::no_std_io::SeekFrom;
+                let seek_amt = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::Start(seek_amt)) {
+                    return Err(::#crate_::DekuError::Io(e.kind()));
+                }
+            }
+        }
+    } else if input.seek_rewind {
+        quote! {
+            {
+                use ::#crate_::no_std_io::Seek;
+                if let Err(e) = __deku_reader.rewind() {
+                    return Err(::#crate_::DekuError::Io(e.kind()));
+                }
+            }
+        }
+    } else {
+        quote! {}
+    }
+}
+
 fn emit_magic_read(input: &DekuData) -> TokenStream {
     let crate_ = super::get_crate_name();
     if let Some(magic) = &input.magic {
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 4165b68..500cee5 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -33,57 +33,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         fields,
     } = DekuDataStruct::try_from(input)?;
 
-    let seek = if let Some(num) = &input.seek_from_current {
-        quote! {
-            {
-                use ::#crate_::no_std_io::Seek;
-                use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).map_err(|_|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
-                )?;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Current(seek_amt)) {
-                    return Err(::#crate_::DekuError::Io(e.kind()));
-                }
-            }
-        }
-    } else if let Some(num) = &input.seek_from_end {
-        quote! {
-            {
-                use ::#crate_::no_std_io::Seek;
-                use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).map_err(|_|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
-                )?;
-                if let Err(e) = __deku_writer.seek(SeekFrom::End(seek_amt)) {
-                    return Err(::#crate_::DekuError::Io(e.kind()));
-                }
-            }
-        }
-    } else if let Some(num) = &input.seek_from_start {
-        quote! {
-            {
-                use ::#crate_::no_std_io::Seek;
-                use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).map_err(|_|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
-                )?;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Start(seek_amt)) {
-                    return Err(::#crate_::DekuError::Io(e.kind()));
-                }
-            }
-        }
-    } else if input.seek_rewind {
-        quote! {
-            {
-                use ::#crate_::no_std_io::Seek;
-                if let Err(e) = __deku_writer.rewind() {
-                    return Err(::#crate_::DekuError::Io(e.kind()));
-                }
-            }
-        }
-    } else {
-        quote! {}
-    };
+    let seek = emit_seek(input);
 
     let magic_write = emit_magic_write(input);
 
@@ -215,6 +165,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         id_args,
     } = DekuDataEnum::try_from(input)?;
 
+    let seek = emit_seek(input);
     let magic_write = emit_magic_write(input);
 
     let mut variant_writes = Vec::with_capacity(variants.len());
@@ -403,6 +354,8 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
     let (ctx_types, ctx_arg) = gen_ctx_types_and_arg(input.ctx.as_ref())?;
 
     let write_body = quote! {
+        #seek
+
         #magic_write
 
         match self {
@@ -459,6 +412,62 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
     Ok(tokens)
 }
 
+/// Seek to the position declared for the whole type
+fn emit_seek(input: &DekuData) -> TokenStream {
+    let crate_ = super::get_crate_name();
+    if let Some(num) = &input.seek_from_current {
+        quote! {
+            {
+                use ::#crate_::no_std_io::Seek;
+                use ::#crate_::no_std_io::SeekFrom;
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::Current(seek_amt)) {
+                    return Err(::#crate_::DekuError::Io(e.kind()));
+                }
+            }
+        }
+    } else if let Some(num) = &input.seek_from_end {
+        quote! {
+            {
+                use ::#crate_::no_std_io::Seek;
+                use ::#crate_::no_std_io::SeekFrom;
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::End(seek_amt)) {
+                    return Err(::#crate_::DekuError::Io(e.kind()));
+                }
+            }
+        }
+    } else if let Some(num) = &input.seek_from_start {
+        quote! {
+            {
+                use ::#crate_::no_std_io::Seek;
+                use ::#crate_::no_std_io::SeekFrom;
+                let seek_amt = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::Start(seek_amt)) {
+                    return Err(::#crate_::DekuError::Io(e.kind()));
+                }
+            }
+        }
+    } else if input.seek_rewind {
+        quote! {
+            {
+                use ::#crate_::no_std_io::Seek;
+                if let Err(e) = __deku_writer.rewind() {
+                    return Err(::#crate_::DekuError::Io(e.kind()));
+                }
+            }
+        }
+    } else {
+        quote! {}
+    }
+}
+
 fn emit_magic_write(input: &DekuData) -> TokenStream {
     let crate_ = super::get_crate_name();
     if let Some(magic) = &input.magic {
-- 
2.43.0


From dc0cb6a26689f49700d48fa3884d3c3cd2bf0def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 19/28] fix: seeking a NoSeek stream without std is an error,
 not a panic

---
 src/noseek.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/noseek.rs b/src/noseek.rs
index 84e222f..16831f1 100644
--- a/src/noseek.rs
+++ b/src/noseek.rs
@@ -47,7 +47,10 @@ impl<T> Seek for NoSeek<T> {
             #[cfg(feature = "std")]
             _ => Err(std::io::Error::other("seek on unseekable file")),
             #[cfg(not(feature = "std"))]
-            _ => panic!("seek on unseekable file"),
+            _ => Err(crate::no_std_io::Error::new(
+                crate::no_std_io::ErrorKind::Other,
+                "seek on unseekable file",
+            )),
         }
     }
 
-- 
2.43.0


From 92f4c22a4770db0891f2c3874ec33287bb400d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 20/28] fix: a CString sized in bytes is written whole

---
 src/impls/cstring.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/impls/cstring.rs b/src/impls/cstring.rs
index 8077bd8..98e4879 100644
--- a/src/impls/cstring.rs
+++ b/src/impls/cstring.rs
@@ -8,20 +8,32 @@ use crate::writer::Writer;
 use crate::{ctx::*, DekuReader};
 use crate::{DekuError, DekuWriter};
 
-impl<Ctx: Copy> DekuWriter<Ctx> for CString
-where
-    u8: DekuWriter<Ctx>,
-{
-    fn to_writer<W: Write + Seek>(
-        &self,
-        writer: &mut Writer<W>,
-        ctx: Ctx,
-    ) -> Result<(), DekuError> {
-        let bytes = self.as_bytes_with_nul();
-        bytes.to_writer(writer, ctx)
-    }
+macro_rules! impl_writer {
+    ($($ctx_type:ty, $ctx:pat => $inner:expr;)*) => {$(
+        impl DekuWriter<$ctx_type> for CString {
+            fn to_writer<W: Write + Seek>(
+                &self,
+                writer: &mut Writer<W>,
+                $ctx: $ctx_type,
+            ) -> Result<(), DekuError> {
+                self.as_bytes_with_nul().to_writer(writer, $inner)
+            }
+        }
+    )*};
 }
 
+// A size is that of the whole string, it is not handed to its bytes
+impl_writer!(
+    (), () => ();
+    Endian, endian => endian;
+    Order, order => order;
+    (Endian, Order), (endian, order) => (endian, order);
+    ByteSize, _ => ();
+    (Endian, ByteSize), (endian, _) => endian;
+    (ByteSize, Order), (_, order) => order;
+    (Endian, ByteSize, Order), (endian, _, order) => (endian, order);
+);
+
 impl DekuReader<'_> for CString {
     fn from_reader_with_ctx<R: Read + Seek>(
         reader: &mut Reader<R>,
-- 
2.43.0


From d0e010877d92561b6d8bb036951f89d9fa2076fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 21/28] fix: DekuSize counts a size of its own once per element
 of an array or tuple

---
 deku-derive/src/macros/deku_size.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index e731c2c..548d009 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -61,16 +61,16 @@ fn calculate_fields_size<'a>(
         let field_type = &f.ty;
         #[cfg(feature = "bits")]
         if let Some(bits) = &f.bits {
-            components.push(quote! { (#bits) });
+            components.push(calculate_sized_type(field_type, &quote! { (#bits) }));
         } else if let Some(bytes) = &f.bytes {
-            components.push(quote! { (#bytes) * 8 });
+            components.push(calculate_sized_type(field_type, &quote! { ((#bytes) * 8) }));
         } else {
             components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
         }
 
         #[cfg(not(feature = "bits"))]
         if let Some(bytes) = &f.bytes {
-            components.push(quote! { (#bytes) * 8 });
+            components.push(calculate_sized_type(field_type, &quote! { ((#bytes) * 8) }));
         } else {
             components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
         }
@@ -122,6 +122,24 @@ fn calculate_magic_size(magic: &syn::LitByteStr) -> TokenStream {
     quote! { #magic_len * 8 }
 }
 
+/// Calculate the size of a field with a size of its own: arrays and tuples hand it to each element
+fn calculate_sized_type(ty: &syn::Type, size: &TokenStream) -> TokenStream {
+    match ty {
+        syn::Type::Array(array) => {
+            let len = &array.len;
+            let elem = calculate_sized_type(&array.elem, size);
+            quote! { ((#len) * #elem) }
+        }
+        syn::Type::Tuple(tuple) => {
+            let elems = tuple.elems.iter().map(|t| calculate_sized_type(t, size));
+            quote! { (0 #(+ #elems)*) }
+        }
+        syn::Type::Paren(inner) => calculate_sized_type(&inner.elem, size),
+        syn::Type::Group(inner) => calculate_sized_type(&inner.elem, size),
+        _ => quote! { #size },
+    }
+}
+
 /// Calculate padding size (with bits feature)
 #[cfg(feature = "bits")]
 fn calculate_padding_size(
-- 
2.43.0


From e3d361e7e852da6f58d1e589e14f3229a43c867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 22/28] fix: DekuSize does not count fields that are always
 skipped

---
 deku-derive/src/macros/deku_size.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index 548d009..f882b8a 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -5,7 +5,7 @@ use proc_macro2::TokenStream;
 use quote::quote;
 use syn::spanned::Spanned;
 
-use crate::{DekuData, DekuDataEnum, DekuDataStruct, FieldData};
+use crate::{DekuData, DekuDataEnum, DekuDataStruct, FieldData, SkipMode};
 
 pub(crate) fn emit_deku_size(input: &DekuData) -> Result<TokenStream, syn::Error> {
     // NOTE: This is overkill, but keeps the same validating requirements of DekuRead. This ensures
@@ -60,7 +60,9 @@ fn calculate_fields_size<'a>(
 
         let field_type = &f.ty;
         #[cfg(feature = "bits")]
-        if let Some(bits) = &f.bits {
+        if is_always_skipped(f) {
+            // occupies nothing
+        } else if let Some(bits) = &f.bits {
             components.push(calculate_sized_type(field_type, &quote! { (#bits) }));
         } else if let Some(bytes) = &f.bytes {
             components.push(calculate_sized_type(field_type, &quote! { ((#bytes) * 8) }));
@@ -69,7 +71,9 @@ fn calculate_fields_size<'a>(
         }
 
         #[cfg(not(feature = "bits"))]
-        if let Some(bytes) = &f.bytes {
+        if is_always_skipped(f) {
+            // occupies nothing
+        } else if let Some(bytes) = &f.bytes {
             components.push(calculate_sized_type(field_type, &quote! { ((#bytes) * 8) }));
         } else {
             components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
@@ -116,6 +120,11 @@ fn field_has_seek_attributes(field: &FieldData) -> bool {
         || field.seek_from_start.is_some()
 }
 
+/// Check if a field is never read nor written
+fn is_always_skipped(field: &FieldData) -> bool {
+    matches!(field.skip, Some(SkipMode::All)) && field.cond.is_none()
+}
+
 /// Calculate the size in bits of a magic byte string
 fn calculate_magic_size(magic: &syn::LitByteStr) -> TokenStream {
     let magic_len = magic.value().len();
@@ -177,7 +186,7 @@ fn add_field_bounds<'a>(
             continue;
         }
 
-        if !field.temp {
+        if !field.temp && !is_always_skipped(field) {
             let field_type = &field.ty;
             #[cfg(feature = "bits")]
             let needs_bound = field.bits.is_none() && field.bytes.is_none();
-- 
2.43.0


From 3ba98a9f55098a3b10800051c80a4658cc88f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 23/28] fix: DekuSize counts temp fields that are read and
 written

---
 deku-derive/src/macros/deku_size.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index f882b8a..35c0700 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -32,7 +32,8 @@ fn calculate_fields_size<'a>(
             return None;
         }
 
-        if f.temp {
+        // a temp field with a temp_value is read and written
+        if f.temp && f.temp_value.is_none() {
             return None;
         }
 
@@ -186,7 +187,7 @@ fn add_field_bounds<'a>(
             continue;
         }
 
-        if !field.temp && !is_always_skipped(field) {
+        if (!field.temp || field.temp_value.is_some()) && !is_always_skipped(field) {
             let field_type = &field.ty;
             #[cfg(feature = "bits")]
             let needs_bound = field.bits.is_none() && field.bytes.is_none();
-- 
2.43.0


From 18dbf409f56201c70641e68369bb2addaa8bfeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 24/28] fix: signed big endian Lsb0 bit fields over 8 bits keep
 their upper bits

---
 src/impls/primitive.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 8cb7c89..f68a339 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -577,7 +577,12 @@ macro_rules! ImplDekuReadSignExtend {
                 )?;
 
                 const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
-                let bit_size = size.0;
+                // Big endian and Lsb0: whole bytes, then a last byte that is only
+                // partly filled, so the sign is the top bit of the first byte.
+                let bit_size = match (endian, order) {
+                    (Endian::Big, Order::Lsb0) if size.0 > 8 => size.0.next_multiple_of(8),
+                    _ => size.0,
+                };
                 let shift = MAX_TYPE_BITS - bit_size;
                 let value = (value as $typ) << shift >> shift;
                 Ok((amt_read, value))
@@ -893,7 +898,7 @@ macro_rules! ImplDekuWrite {
                     (Endian::Big, Order::Lsb0) if bit_size > 8 => bit_size % 8,
                     _ => 0,
                 };
-                let max = if partial == 0 || IsSigned!($signed_type) {
+                let max = if partial == 0 {
                     bit_size
                 } else {
                     bit_size.next_multiple_of(8)
-- 
2.43.0


From f8eee9d6119f97455703d38c39ec0fe74077174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 25/28] fix: implement DekuContainerWrite for enums without the
 alloc feature

Structs already implement it unconditionally; on enums the impl was emitted
together with TryFrom for Vec<u8>, so to_slice was missing without alloc.
---
 deku-derive/src/macros/deku_write.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 500cee5..1b59853 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -345,7 +345,9 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                     }
                 }
             };
+        });
 
+        tokens.extend(quote! {
             #[automatically_derived]
             impl #imp ::#crate_::DekuContainerWrite for #ident #wher {}
         });
-- 
2.43.0


From 81e70cb866cfd08a41c80212b1e4179219fa92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 26/28] fix: bit sized NonZero fields without the alloc feature

---
 src/impls/nonzero.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impls/nonzero.rs b/src/impls/nonzero.rs
index 929d323..b880642 100644
--- a/src/impls/nonzero.rs
+++ b/src/impls/nonzero.rs
@@ -39,10 +39,10 @@ macro_rules! ImplDekuTraitsCtx {
 macro_rules! ImplDekuTraits {
     ($typ:ty, $readtype:ty) => {
         ImplDekuTraitsCtx!($typ, $readtype, (), ());
-        #[cfg(all(feature = "bits", feature = "alloc"))]
+        #[cfg(feature = "bits")]
         ImplDekuTraitsCtx!($typ, $readtype, (endian, bitsize), (Endian, BitSize));
         ImplDekuTraitsCtx!($typ, $readtype, (endian, bytesize), (Endian, ByteSize));
-        #[cfg(all(feature = "bits", feature = "alloc"))]
+        #[cfg(feature = "bits")]
         ImplDekuTraitsCtx!(
             $typ,
             $readtype,
-- 
2.43.0


From 95afc78e0b270de7011b189e843dccc933a8d1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 27/28] fix: a seek while writing lost the bits of a partly
 written byte

---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 67c506e..ea83c7b 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -32,10 +32,10 @@ impl<W: Write + Seek> Seek for Writer<W> {
         #[cfg(feature = "logging")]
         log::trace!("seek: {pos:?}");
 
-        // clear leftover
+        // a partly written byte ends here, and is not lost
+        self.finalize()?;
         #[cfg(feature = "bits")]
         {
-            self.leftover.0.clear();
             self.leftover.1 = Order::Msb0;
         }
 
-- 
2.43.0


From 8839c653a7d199126cbe387b5555fa14c30a70b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:49 +0000
Subject: [PATCH 28/28] fix: to_bits puts an unfinished byte where a seek has
 moved it to

---
 src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bda1b5c..9eee6f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -770,9 +770,17 @@ pub trait DekuContainerWrite: DekuWriter<()> {
         let mut cursor = no_std_io::Cursor::new(&mut out_buf);
         let mut __deku_writer = Writer::new(&mut cursor);
         DekuWriter::to_writer(self, &mut __deku_writer, ())?;
-        let leftover = __deku_writer.leftover;
+        // Write the unfinished byte where `to_bytes` would: after a seek that
+        // is not necessarily right after the bytes written so far
+        let leftover = __deku_writer.leftover.0.clone();
+        __deku_writer.finalize()?;
+        let end = cursor.position();
         let mut bv = bitvec::BitVec::from_slice(&out_buf);
-        bv.extend_from_bitslice(leftover.0.as_bitslice());
+        if !leftover.is_empty() && end == out_buf.len() as u64 {
+            // Leave out its padding
+            bv.truncate(bv.len() - 8);
+            bv.extend_from_bitslice(leftover.as_bitslice());
+        }
         Ok(bv)
     }
 }
-- 
2.43.0

