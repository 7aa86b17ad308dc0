From f4530758169e6da646a208ab5b47cbaf97bfae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 01/34] fix: v1 decoders reject truncated and over-range
 varints instead of panicking or truncating

---
 decode.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/decode.go b/decode.go
index b9d58cf..07a2545 100644
--- a/decode.go
+++ b/decode.go
@@ -172,12 +172,12 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 	if len(b) > 1 && b[0] == Uint16Kind[0] {
 		var x uint16
 		var s uint
-		for i := 1; i < VarIntLen16+1; i++ {
+		for i := 1; i < VarIntLen16+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen16 && cb > 1 {
-					return b, 0, InvalidUint32
+				if i == VarIntLen16 && cb > 3 {
+					return b, 0, InvalidUint16
 				}
 				// End of varint, add the last bits and advance the buffer
 				return b[i+1:], x | uint16(cb)<<s, nil
@@ -193,11 +193,11 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 	if len(b) > 1 && b[0] == Uint32Kind[0] {
 		var x uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > 15 {
 					return b, 0, InvalidUint32
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -215,12 +215,12 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 	if len(b) > 1 && b[0] == Uint64Kind[0] {
 		var x uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
 				// Check for overflow
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > 1 {
 					return b, 0, InvalidUint64
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -238,11 +238,11 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 	if len(b) > 1 && b[0] == Int32Kind[0] {
 		var ux uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > 15 {
 					return b, 0, InvalidInt32
 				}
 				// End of varint, add the last bits
@@ -266,11 +266,11 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 	if len(b) > 1 && b[0] == Int64Kind[0] {
 		var ux uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > 1 {
 					return b, 0, InvalidInt64
 				}
 				// End of varint, add the last bits
-- 
2.43.0


From 47c7d2054373bd17474c8e9a78bf26e1d493ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 02/34] fix: v1 decodeBool rejects bytes that are neither true
 nor false

---
 decode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decode.go b/decode.go
index 07a2545..ba09e04 100644
--- a/decode.go
+++ b/decode.go
@@ -147,9 +147,10 @@ func decodeError(b []byte) ([]byte, error, error) {
 func decodeBool(b []byte) ([]byte, bool, error) {
 	if len(b) > 1 {
 		if b[0] == BoolKind[0] {
-			if b[1] == trueBool {
+			switch b[1] {
+			case trueBool:
 				return b[2:], true, nil
-			} else {
+			case falseBool:
 				return b[2:], false, nil
 			}
 		}
-- 
2.43.0


From 5039cde970962b03801407f6373b3b931a9aec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 03/34] fix: v1 decodeBytes returns only the decoded bytes when
 the scratch slice is longer

---
 decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decode.go b/decode.go
index ba09e04..5e7a372 100644
--- a/decode.go
+++ b/decode.go
@@ -103,7 +103,7 @@ func decodeBytes(b, ret []byte) ([]byte, []byte, error) {
 						ret = append(ret[:0], b[:size]...)
 					}
 				} else {
-					copy(ret[0:], b[:size])
+					ret = ret[:copy(ret, b[:size])]
 				}
 				return b[size:], ret, nil
 			}
-- 
2.43.0


From 39849922a6085264f834dfe333c92ec3abfdd7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 04/34] fix: v2 decoders reject truncated and over-range
 varints instead of panicking or truncating

---
 v2/decode.go | 113 +++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 105 insertions(+), 8 deletions(-)

diff --git a/v2/decode.go b/v2/decode.go
index 5548906..33e3783 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -89,29 +89,42 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 			offset = 3
 		} else {
 			x := cb & (continuation - 1)
+			if len(b) < 4 {
+				return b, nil, ErrInvalidBytes
+			}
 			cb = uint32(b[3])
 			if cb < continuation {
 				size = int(x | (cb << 7))
 				offset = 4
 			} else {
 				x |= (cb & (continuation - 1)) << 7
+				if len(b) < 5 {
+					return b, nil, ErrInvalidBytes
+				}
 				cb = uint32(b[4])
 				if cb < continuation {
 					size = int(x | (cb << 14))
 					offset = 5
 				} else {
 					x |= (cb & (continuation - 1)) << 14
+					if len(b) < 6 {
+						return b, nil, ErrInvalidBytes
+					}
 					cb = uint32(b[5])
 					if cb < continuation {
 						size = int(x | (cb << 21))
 						offset = 6
 					} else {
 						x |= (cb & (continuation - 1)) << 21
+						if len(b) < 7 {
+							return b, nil, ErrInvalidBytes
+						}
 						cb = uint32(b[6])
-						if cb < continuation {
-							size = int(x | (cb << 28))
-							offset = 7
+						if cb > 15 {
+							return b, nil, ErrInvalidBytes
 						}
+						size = int(x | (cb << 28))
+						offset = 7
 					}
 				}
 			}
@@ -178,14 +191,20 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint16
+		}
 		cb = uint16(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint16
+		}
 		cb = uint16(b[3])
-		if cb < continuation {
+		if cb < 4 {
 			return b[4:], x | (cb << 14), nil
 		}
 	}
@@ -200,26 +219,38 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[4])
 		if cb < continuation {
 			return b[5:], x | (cb << 21), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[5])
-		if cb < continuation {
+		if cb < 16 {
 			return b[6:], x | (cb << 28), nil
 		}
 	}
@@ -234,56 +265,83 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[4])
 		if cb < continuation {
 			return b[5:], x | (cb << 21), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[5])
 		if cb < continuation {
 			return b[6:], x | (cb << 28), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 28
+		if len(b) < 7 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[6])
 		if cb < continuation {
 			return b[7:], x | (cb << 35), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 35
+		if len(b) < 8 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[7])
 		if cb < continuation {
 			return b[8:], x | (cb << 42), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 42
+		if len(b) < 9 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[8])
 		if cb < continuation {
 			return b[9:], x | (cb << 49), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 49
+		if len(b) < 10 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[9])
 		if cb < continuation {
 			return b[10:], x | (cb << 56), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 56
+		if len(b) < 11 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[10])
-		if cb < continuation {
+		if cb < 2 {
 			return b[11:], x | (cb << 63), nil
 		}
 	}
@@ -302,6 +360,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[2])
 		if cb < continuation {
 			x |= cb << 7
@@ -312,6 +373,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[3])
 		if cb < continuation {
 			x |= cb << 14
@@ -322,6 +386,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[4])
 		if cb < continuation {
 			x |= cb << 21
@@ -332,8 +399,11 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[5])
-		if cb < continuation {
+		if cb < 16 {
 			x |= cb << 28
 			if x&1 != 0 {
 				return b[6:], -(int32(x>>1) + 1), nil
@@ -356,6 +426,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[2])
 		if cb < continuation {
 			x |= cb << 7
@@ -366,6 +439,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[3])
 		if cb < continuation {
 			x |= cb << 14
@@ -376,6 +452,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[4])
 		if cb < continuation {
 			x |= cb << 21
@@ -386,6 +465,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[5])
 		if cb < continuation {
 			x |= cb << 28
@@ -396,6 +478,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 28
+		if len(b) < 7 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[6])
 		if cb < continuation {
 			x |= cb << 35
@@ -406,6 +491,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 35
+		if len(b) < 8 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[7])
 		if cb < continuation {
 			x |= cb << 42
@@ -416,6 +504,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 42
+		if len(b) < 9 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[8])
 		if cb < continuation {
 			x |= cb << 49
@@ -426,6 +517,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 49
+		if len(b) < 10 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[9])
 		if cb < continuation {
 			x |= cb << 56
@@ -436,8 +530,11 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 56
+		if len(b) < 11 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[10])
-		if cb < continuation {
+		if cb < 2 {
 			x |= cb << 63
 			if x&1 != 0 {
 				return b[11:], -(int64(x>>1) + 1), nil
-- 
2.43.0


From 4e40a6160fa024b7efa5de3de0dc97f5ea5e3db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 05/34] fix: v2 encodeBytes keeps the last length byte of
 payloads of 256 MiB and more

---
 v2/encode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/encode.go b/v2/encode.go
index 8422540..0a7b355 100644
--- a/v2/encode.go
+++ b/v2/encode.go
@@ -232,6 +232,7 @@ func encodeBytes(b *Buffer, value []byte) {
 					castValue >>= 7
 					if castValue < continuation {
 						b.b[offset] = byte(castValue)
+						offset++
 					} else {
 						b.b[offset] = byte(castValue&(continuation-1)) | continuation
 						offset++
-- 
2.43.0


From 63ba82208a8be87b4db344cb850b9f2a2321b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 06/34] fix: v2 NewBufferFromBytes accepts a slice whose length
 is below its capacity

---
 v2/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/buffer.go b/v2/buffer.go
index 1c85560..d20d46c 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -41,7 +41,7 @@ func NewBufferSize(size int) *Buffer {
 
 func NewBufferFromBytes(b []byte) *Buffer {
 	return &Buffer{
-		b:      b,
+		b:      b[:cap(b)],
 		offset: 0,
 	}
 }
-- 
2.43.0


From 13552375ec10500da7dbd69ee47ae5f67102c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 07/34] fix: Rust decode_array, decode_map and decode_error
 leave the cursor in place on a kind mismatch

---
 decoder.rs | 68 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 43624e9..1d85e62 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -88,32 +88,35 @@ where
     }
 
     fn decode_array(&mut self, val_kind: Kind) -> Result<usize, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
-        if kind == Kind::Array as u8 && val_kind as u8 == defined_val_kind {
-            return match self.decode_u32() {
-                Err(err) => Err(err),
-                Ok(val) => Ok(val as usize),
-            };
+        if kind == Kind::Array as u8 {
+            let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
+            if val_kind as u8 == defined_val_kind {
+                return match self.decode_u32() {
+                    Err(err) => Err(err),
+                    Ok(val) => Ok(val as usize),
+                };
+            }
         }
-        self.set_position(self.position() - 1);
+        self.set_position(start);
         Err(DecodingError::InvalidU32)
     }
 
     fn decode_map(&mut self, key_kind: Kind, val_kind: Kind) -> Result<usize, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_key_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        if kind == Kind::Map as u8
-            && key_kind as u8 == defined_key_kind
-            && val_kind as u8 == defined_val_kind
-        {
-            return match self.decode_u32() {
-                Err(err) => Err(err),
-                Ok(val) => Ok(val as usize),
-            };
+        if kind == Kind::Map as u8 {
+            let defined_key_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
+            let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
+            if key_kind as u8 == defined_key_kind && val_kind as u8 == defined_val_kind {
+                return match self.decode_u32() {
+                    Err(err) => Err(err),
+                    Ok(val) => Ok(val as usize),
+                };
+            }
         }
-        self.set_position(self.position() - 1);
+        self.set_position(start);
         Err(DecodingError::InvalidMap)
     }
 
@@ -151,21 +154,24 @@ where
     }
 
     fn decode_error(&mut self) -> Result<Box<dyn Error>, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
-        let nested_kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
-        if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
-            let size = self.decode_u32()? as usize;
-            let mut str_buf = vec![0u8; size];
-            self.read_exact(&mut str_buf)
-                .ok()
-                .ok_or(DecodingError::InvalidError)?;
-
-            let result = str::from_utf8(&str_buf)
-                .ok()
-                .ok_or(DecodingError::InvalidError)?;
-            return Ok(Box::<dyn Error>::from(result.to_owned()));
+        if kind == Kind::Error as u8 {
+            let nested_kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
+            if nested_kind == Kind::String as u8 {
+                let size = self.decode_u32()? as usize;
+                let mut str_buf = vec![0u8; size];
+                self.read_exact(&mut str_buf)
+                    .ok()
+                    .ok_or(DecodingError::InvalidError)?;
+
+                let result = str::from_utf8(&str_buf)
+                    .ok()
+                    .ok_or(DecodingError::InvalidError)?;
+                return Ok(Box::<dyn Error>::from(result.to_owned()));
+            }
         }
-        self.set_position(self.position() - 2);
+        self.set_position(start);
         Err(DecodingError::InvalidError)
     }
 
-- 
2.43.0


From e217538cec7f10c19480fd68f69ea415dfdd3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 08/34] fix: Rust decoders reject varints that do not fit the
 type instead of truncating them

---
 decoder.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 1d85e62..4ca6fd3 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -200,9 +200,12 @@ where
             let mut x: u16 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN16 {
+            for i in 0..VARINT_LEN16 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU16)?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN16 - 1 && byte > 3 {
+                        return Err(DecodingError::InvalidU16);
+                    }
                     return Ok(x | ((byte as u16) << s));
                 }
                 x |= (byte as u16 & ((CONTINUATION as u16) - 1)) << s;
@@ -219,9 +222,12 @@ where
             let mut x: u32 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN32 {
+            for i in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU32)?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN32 - 1 && byte > 15 {
+                        return Err(DecodingError::InvalidU32);
+                    }
                     return Ok(x | ((byte as u32) << s));
                 }
                 x |= (byte as u32 & ((CONTINUATION as u32) - 1)) << s;
@@ -238,9 +244,12 @@ where
             let mut x: u64 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN64 {
+            for i in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU64)?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN64 - 1 && byte > 1 {
+                        return Err(DecodingError::InvalidU64);
+                    }
                     return Ok(x | ((byte as u64) << s));
                 }
                 x |= (byte as u64 & ((CONTINUATION as u64) - 1)) << s;
@@ -257,9 +266,12 @@ where
             let mut ux: u32 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN32 {
+            for i in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI32)?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN32 - 1 && byte > 15 {
+                        return Err(DecodingError::InvalidI32);
+                    }
                     ux |= (byte as u32) << s;
                     let mut x = (ux >> 1) as i32;
                     if ux & 1 != 0 {
@@ -281,9 +293,12 @@ where
             let mut ux: u64 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN64 {
+            for i in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI64)?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN64 - 1 && byte > 1 {
+                        return Err(DecodingError::InvalidI64);
+                    }
                     ux |= (byte as u64) << s;
                     let mut x = (ux >> 1) as i64;
                     if ux & 1 != 0 {
-- 
2.43.0


From f619db0ca8312c996b80a015108e7ecf7d5353dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 09/34] fix: Rust decode_bool rejects bytes that are neither
 true nor false

---
 decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.rs b/decoder.rs
index 4ca6fd3..5d42cf1 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -179,7 +179,11 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBool)?;
         if kind == Kind::Bool as u8 {
             let val = self.read_u8().ok().ok_or(DecodingError::InvalidBool)?;
-            return Ok(val == 1);
+            return match val {
+                0 => Ok(false),
+                1 => Ok(true),
+                _ => Err(DecodingError::InvalidBool),
+            };
         }
         self.set_position(self.position() - 1);
         Err(DecodingError::InvalidBool)
-- 
2.43.0


From eab31f7240b74b5c1b881decc6e3d1b80e4d2944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 10/34] fix: Rust decoders check a declared length against the
 input before allocating it

---
 decoder.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/decoder.rs b/decoder.rs
index 5d42cf1..3a15113 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -55,6 +55,11 @@ const VARINT_LEN32: u32 = 5;
 const VARINT_LEN64: u64 = 10;
 const CONTINUATION: u8 = 0x80;
 
+/// Number of bytes between the cursor and the end of its input.
+fn remaining<T: AsRef<[u8]>>(cursor: &Cursor<T>) -> u64 {
+    (cursor.get_ref().as_ref().len() as u64).saturating_sub(cursor.position())
+}
+
 pub trait Decoder {
     fn decode_none(&mut self) -> bool;
     fn decode_array(&mut self, val_kind: Kind) -> Result<usize, DecodingError>;
@@ -124,6 +129,9 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBytes)?;
         if kind == Kind::Bytes as u8 {
             let size = self.decode_u32()? as usize;
+            if size as u64 > remaining(self) {
+                return Err(DecodingError::InvalidBytes);
+            }
             let mut buf = vec![0u8; size];
             self.read_exact(&mut buf)
                 .ok()
@@ -139,6 +147,9 @@ where
 
         if kind == Kind::String as u8 {
             let size = self.decode_u32()? as usize;
+            if size as u64 > remaining(self) {
+                return Err(DecodingError::InvalidString);
+            }
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
                 .ok()
@@ -160,6 +171,9 @@ where
             let nested_kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
             if nested_kind == Kind::String as u8 {
                 let size = self.decode_u32()? as usize;
+                if size as u64 > remaining(self) {
+                    return Err(DecodingError::InvalidError);
+                }
                 let mut str_buf = vec![0u8; size];
                 self.read_exact(&mut str_buf)
                     .ok()
-- 
2.43.0


From 43ffe3ff2923fe06729d4af92944482cce2666c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 11/34] fix: polyglot_decode_none returns on a null decoder and
 sets the status

---
 c_bindings/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d518ba4..d645514 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -70,9 +70,13 @@ pub extern "C" fn polyglot_decode_none(status: *mut Status, decoder: *mut Decode
         unsafe {
             *status = Status::NullPointer;
         }
+        return false;
     }
 
-    unsafe { (*decoder).cursor.decode_none() }
+    unsafe {
+        *status = Status::Pass;
+        (*decoder).cursor.decode_none()
+    }
 }
 
 #[no_mangle]
-- 
2.43.0


From cfe18940ab44d0b210528cf86cb14e6afea1bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 12/34] fix: polyglot_free_decode_bytes frees the whole buffer
 it was given

---
 c_bindings/decoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d645514..d22ddac 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -173,11 +173,11 @@ pub extern "C" fn polyglot_decode_bytes(status: *mut Status, decoder: *mut Decod
 pub extern "C" fn polyglot_free_decode_bytes(buffer: *mut Buffer) {
     if !buffer.is_null() {
         unsafe {
-            let boxed_value =
-                std::slice::from_raw_parts_mut((*buffer).data, (*buffer).length as usize);
-            let value = boxed_value.as_mut_ptr();
-            drop(Box::from_raw(value));
-            drop(Box::from_raw(buffer));
+            let buffer = Box::from_raw(buffer);
+            drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(
+                buffer.data,
+                buffer.length as usize,
+            )));
         }
     }
 }
-- 
2.43.0


From ff4fe6cc034f60c5bf0257e46a3d0a255e5ea1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 13/34] fix: polyglot_encoder_size sets the status

---
 c_bindings/encoder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index 556da37..e00b993 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -54,7 +54,16 @@ pub extern "C" fn polyglot_encoder_size(status: *mut Status, encoder: *mut Encod
     }
 
     unsafe {
-        (*encoder).cursor.get_ref().len() as u32
+        match u32::try_from((*encoder).cursor.get_ref().len()) {
+            Ok(size) => {
+                *status = Status::Pass;
+                size
+            },
+            Err(_) => {
+                *status = Status::Fail;
+                0
+            },
+        }
     }
 }
 
-- 
2.43.0


From 305899b0319b9a53ba9d9d1895a43f77d376313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 14/34] fix: polyglot_encoder_buffer compares full sizes

---
 c_bindings/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index e00b993..64714dd 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -79,7 +79,7 @@ pub extern "C" fn polyglot_encoder_buffer(status: *mut Status, encoder: *mut Enc
     }
 
     unsafe {
-        if buffer_size < (*encoder).cursor.get_ref().len() as u32 {
+        if (buffer_size as usize) < (*encoder).cursor.get_ref().len() {
             *status = Status::Fail;
             return;
         }
-- 
2.43.0


From b61fe6eb54ef531536ab7691512c1d532007a504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 15/34] fix: the C string and error encoders refuse a null
 string

---
 c_bindings/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index 64714dd..42e83e2 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -202,7 +202,7 @@ pub extern "C" fn polyglot_encode_bytes(status: *mut Status, encoder: *mut Encod
 pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Encoder, string_pointer: *const c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
@@ -232,7 +232,7 @@ pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Enco
 pub extern "C" fn polyglot_encode_error(status: *mut Status, encoder: *mut Encoder, string_pointer: *mut c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
-- 
2.43.0


From b0f56d58b0e44fd10b1ad3dcfbc951b3696d34d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 16/34] fix: the TypeScript encoder reserves the bytes it
 writes

---
 encoder.ts | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/encoder.ts b/encoder.ts
index fca1760..510c262 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -41,7 +41,9 @@ export class Encoder {
     if (this.#buf.length - this.#pos < minLen) {
       const oldBuf = this.#buf;
 
-      this.#buf = new Uint8Array(this.#buf.buffer.byteLength * 2);
+      this.#buf = new Uint8Array(
+        Math.max(oldBuf.length * 2, this.#pos + minLen),
+      );
       this.#buf.set(oldBuf);
     }
   }
@@ -52,7 +54,7 @@ export class Encoder {
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
     let val = value;
-    this.resize(maxBytes);
+    this.resize(1 + maxBytes);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -75,7 +77,7 @@ export class Encoder {
     signed = false,
   ) {
     let val = BigInt(value);
-    this.resize(maxBytes);
+    this.resize(1 + maxBytes);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -136,7 +138,7 @@ export class Encoder {
   }
 
   uint64(value: bigint) {
-    return this.varintBig(value, Kind.Uint64, 9);
+    return this.varintBig(value, Kind.Uint64, 10);
   }
 
   int32(value: number) {
@@ -144,7 +146,7 @@ export class Encoder {
   }
 
   int64(value: bigint) {
-    return this.varintBig(value, Kind.Int64, 9, true);
+    return this.varintBig(value, Kind.Int64, 10, true);
   }
 
   float32(value: number) {
@@ -193,7 +195,7 @@ export class Encoder {
   }
 
   uint8Array(value: Uint8Array) {
-    this.resize(5 + value.length);
+    this.resize(7 + value.length);
     this.#buf[this.#pos] = Kind.Uint8Array;
     this.#pos += 1;
     this.uint32(value.length);
@@ -205,7 +207,7 @@ export class Encoder {
   string(value: string) {
     const v = new TextEncoder().encode(value);
 
-    this.resize(5 + v.length);
+    this.resize(7 + v.length);
     this.#buf[this.#pos] = Kind.String;
     this.#pos += 1;
     this.uint32(v.length);
@@ -217,7 +219,7 @@ export class Encoder {
   error(value: Error) {
     const v = new TextEncoder().encode(value.message);
 
-    this.resize(6 + v.length);
+    this.resize(8 + v.length);
     this.#buf[this.#pos] = Kind.Error;
     this.#buf[this.#pos + 1] = Kind.String;
     this.#pos += 2;
-- 
2.43.0


From 89953854a09a3ee453d5b750e78b2915a8353b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 17/34] fix: the TypeScript encoder returns its own bytes when
 given a view

---
 encoder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoder.ts b/encoder.ts
index 510c262..8c8f633 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -49,7 +49,7 @@ export class Encoder {
   }
 
   get bytes() {
-    return new Uint8Array(this.#buf.buffer, 0, this.#pos);
+    return new Uint8Array(this.#buf.buffer, this.#buf.byteOffset, this.#pos);
   }
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
-- 
2.43.0


From 5ace54aba5bcf5b3f078013ebccf9da035fefc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 18/34] fix: TypeScript array, map and error leave the decoder
 in place on a kind mismatch

---
 decoder.ts | 47 +++++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index ccc108d..e7e7c29 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -153,11 +153,14 @@ export class Decoder {
     return val;
   }
 
-  private validateKind(expected: Kind, Err: new () => Error) {
-    if ((this.peek() as Kind) !== expected) {
-      throw new Err();
+  // Consumes the expected kinds, or nothing at all if any of them differs
+  private validateKind(Err: new () => Error, ...expected: Kind[]) {
+    for (let i = 0; i < expected.length; i += 1) {
+      if ((this.buf[this.#pos + i] as Kind) !== expected[i]) {
+        throw new Err();
+      }
     }
-    this.#pos += 1;
+    this.#pos += expected.length;
   }
 
   get length(): number {
@@ -200,12 +203,12 @@ export class Decoder {
   }
 
   boolean(): boolean {
-    this.validateKind(Kind.Boolean, InvalidBooleanError);
+    this.validateKind(InvalidBooleanError, Kind.Boolean);
     return this.pop() === BOOLEAN_TRUE;
   }
 
   uint8(): number {
-    this.validateKind(Kind.Uint8, InvalidUint8Error);
+    this.validateKind(InvalidUint8Error, Kind.Uint8);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -217,7 +220,7 @@ export class Decoder {
   }
 
   uint16(): number {
-    this.validateKind(Kind.Uint16, InvalidUint16Error);
+    this.validateKind(InvalidUint16Error, Kind.Uint16);
     let num = 0;
     let shift = 0;
     for (let i = 1; i < MAXLEN16 + 1; i += 1) {
@@ -232,27 +235,27 @@ export class Decoder {
   }
 
   uint32(): number {
-    this.validateKind(Kind.Uint32, InvalidUint32Error);
+    this.validateKind(InvalidUint32Error, Kind.Uint32);
     return Number(this.varint(MAXLEN32));
   }
 
   uint64(): bigint {
-    this.validateKind(Kind.Uint64, InvalidUint64Error);
+    this.validateKind(InvalidUint64Error, Kind.Uint64);
     return this.varint(MAXLEN64);
   }
 
   int32(): number {
-    this.validateKind(Kind.Int32, InvalidInt32Error);
+    this.validateKind(InvalidInt32Error, Kind.Int32);
     return Number(this.varint(MAXLEN32, true));
   }
 
   int64(): bigint {
-    this.validateKind(Kind.Int64, InvalidInt64Error);
+    this.validateKind(InvalidInt64Error, Kind.Int64);
     return this.varint(MAXLEN64, true);
   }
 
   float32(): number {
-    this.validateKind(Kind.Float32, InvalidFloat32Error);
+    this.validateKind(InvalidFloat32Error, Kind.Float32);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -264,7 +267,7 @@ export class Decoder {
   }
 
   float64(): number {
-    this.validateKind(Kind.Float64, InvalidFloat64Error);
+    this.validateKind(InvalidFloat64Error, Kind.Float64);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -276,20 +279,17 @@ export class Decoder {
   }
 
   array(valueKind: Kind): number {
-    this.validateKind(Kind.Array, InvalidArrayError);
-    this.validateKind(valueKind, InvalidArrayError);
+    this.validateKind(InvalidArrayError, Kind.Array, valueKind);
     return this.uint32();
   }
 
   map(keyKind: Kind, valueKind: Kind): number {
-    this.validateKind(Kind.Map, InvalidMapError);
-    this.validateKind(keyKind, InvalidMapError);
-    this.validateKind(valueKind, InvalidMapError);
+    this.validateKind(InvalidMapError, Kind.Map, keyKind, valueKind);
     return this.uint32();
   }
 
   uint8Array(): Uint8Array {
-    this.validateKind(Kind.Uint8Array, InvalidUint8ArrayError);
+    this.validateKind(InvalidUint8ArrayError, Kind.Uint8Array);
     const size = this.uint32();
     const value = this.buf.slice(this.#pos, this.#pos + size);
     this.#pos += size;
@@ -297,7 +297,7 @@ export class Decoder {
   }
 
   string(): string {
-    this.validateKind(Kind.String, InvalidStringError);
+    this.validateKind(InvalidStringError, Kind.String);
     const size = this.uint32();
     const value = new TextDecoder().decode(
       this.buf.slice(this.#pos, this.#pos + size),
@@ -307,12 +307,7 @@ export class Decoder {
   }
 
   error(): Error {
-    this.validateKind(Kind.Error, InvalidErrorError);
-    const nestedType = this.pop() as Kind;
-    if (nestedType !== Kind.String) {
-      throw new InvalidErrorError();
-    }
-
+    this.validateKind(InvalidErrorError, Kind.Error, Kind.String);
     const size = this.uint32();
     const value = new Error(
       new TextDecoder().decode(this.buf.slice(this.#pos, this.#pos + size)),
-- 
2.43.0


From 208a0b47022ce3d84fdb20bb44a54757a4f58203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 19/34] fix: the TypeScript decoder rejects truncated and
 over-range varints

---
 decoder.ts | 56 +++++++++++++++++++++++-------------------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index e7e7c29..1fef8eb 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -20,9 +20,6 @@ import { Kind } from "./kind";
 /* eslint-disable no-bitwise */
 
 const CONTINUATION = 0x80;
-const MAXLEN16 = 3;
-const MAXLEN32 = 5;
-const MAXLEN64 = 10;
 
 export class InvalidBooleanError extends Error {
   constructor() {
@@ -147,7 +144,10 @@ export class Decoder {
     return this.buf[this.#pos];
   }
 
-  private pop(): number {
+  private pop(Err: new () => Error): number {
+    if (this.#pos >= this.buf.length) {
+      throw new Err();
+    }
     const val = this.buf[this.#pos];
     this.#pos += 1;
     return val;
@@ -167,23 +167,25 @@ export class Decoder {
     return this.buf.length - this.#pos;
   }
 
-  private varint(maxLen: number, signed = false): bigint {
+  private varint(Err: new () => Error, bits: number): bigint {
     let num = 0n;
-    let shift = 0n;
-    for (let i = 1; i < maxLen + 1; i += 1) {
-      const b = this.pop();
-      if (b < BigInt(CONTINUATION)) {
-        num += BigInt(b) << shift;
-        if (signed) {
-          // two's complement
-          num = num % 2n === 0n ? num / 2n : -(num + 1n) / 2n;
+    for (let shift = 0; shift < bits; shift += 7) {
+      const b = this.pop(Err);
+      num |= BigInt(b & (CONTINUATION - 1)) << BigInt(shift);
+      if (b < CONTINUATION) {
+        if (num >> BigInt(bits) !== 0n) {
+          throw new Err();
         }
         return num;
       }
-      num += BigInt(b & (CONTINUATION - 1)) << shift;
-      shift += 7n;
     }
-    return num;
+    throw new Err();
+  }
+
+  private signedVarint(Err: new () => Error, bits: number): bigint {
+    const num = this.varint(Err, bits);
+    // two's complement
+    return num % 2n === 0n ? num / 2n : -(num + 1n) / 2n;
   }
 
   null(): boolean {
@@ -204,7 +206,7 @@ export class Decoder {
 
   boolean(): boolean {
     this.validateKind(InvalidBooleanError, Kind.Boolean);
-    return this.pop() === BOOLEAN_TRUE;
+    return this.pop(InvalidBooleanError) === BOOLEAN_TRUE;
   }
 
   uint8(): number {
@@ -221,37 +223,27 @@ export class Decoder {
 
   uint16(): number {
     this.validateKind(InvalidUint16Error, Kind.Uint16);
-    let num = 0;
-    let shift = 0;
-    for (let i = 1; i < MAXLEN16 + 1; i += 1) {
-      const b = this.pop();
-      if (b < CONTINUATION) {
-        return (num | (b << shift)) >>> 0;
-      }
-      num |= b & ((CONTINUATION - 1) << shift);
-      shift += 7;
-    }
-    return num;
+    return Number(this.varint(InvalidUint16Error, 16));
   }
 
   uint32(): number {
     this.validateKind(InvalidUint32Error, Kind.Uint32);
-    return Number(this.varint(MAXLEN32));
+    return Number(this.varint(InvalidUint32Error, 32));
   }
 
   uint64(): bigint {
     this.validateKind(InvalidUint64Error, Kind.Uint64);
-    return this.varint(MAXLEN64);
+    return this.varint(InvalidUint64Error, 64);
   }
 
   int32(): number {
     this.validateKind(InvalidInt32Error, Kind.Int32);
-    return Number(this.varint(MAXLEN32, true));
+    return Number(this.signedVarint(InvalidInt32Error, 32));
   }
 
   int64(): bigint {
     this.validateKind(InvalidInt64Error, Kind.Int64);
-    return this.varint(MAXLEN64, true);
+    return this.signedVarint(InvalidInt64Error, 64);
   }
 
   float32(): number {
-- 
2.43.0


From 3e77ea3e72b07f13bba67b8d3400f1e040350bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 20/34] fix: TypeScript boolean rejects bytes that are neither
 true nor false

---
 decoder.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 1fef8eb..a169e07 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -14,7 +14,7 @@
  	limitations under the License.
  */
 
-import { BOOLEAN_TRUE } from "./encoder";
+import { BOOLEAN_FALSE, BOOLEAN_TRUE } from "./encoder";
 import { Kind } from "./kind";
 
 /* eslint-disable no-bitwise */
@@ -206,7 +206,11 @@ export class Decoder {
 
   boolean(): boolean {
     this.validateKind(InvalidBooleanError, Kind.Boolean);
-    return this.pop(InvalidBooleanError) === BOOLEAN_TRUE;
+    const val = this.pop(InvalidBooleanError);
+    if (val !== BOOLEAN_TRUE && val !== BOOLEAN_FALSE) {
+      throw new InvalidBooleanError();
+    }
+    return val === BOOLEAN_TRUE;
   }
 
   uint8(): number {
-- 
2.43.0


From 7fc8ba5258b42684c6db81e459a60d1a25426df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 21/34] fix: the TypeScript decoder rejects values cut off by
 the end of the input

---
 decoder.ts | 55 +++++++++++++++++++-----------------------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index a169e07..84dee12 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -188,6 +188,16 @@ export class Decoder {
     return num % 2n === 0n ? num / 2n : -(num + 1n) / 2n;
   }
 
+  // Consumes the next size bytes
+  private take(Err: new () => Error, size: number): Uint8Array {
+    if (this.length < size) {
+      throw new Err();
+    }
+    const val = this.buf.slice(this.#pos, this.#pos + size);
+    this.#pos += size;
+    return val;
+  }
+
   null(): boolean {
     const val = (this.peek() as Kind) === Kind.Null;
     if (val) {
@@ -215,14 +225,7 @@ export class Decoder {
 
   uint8(): number {
     this.validateKind(InvalidUint8Error, Kind.Uint8);
-    const dataView = new DataView(
-      this.buf.buffer,
-      this.buf.byteOffset + this.#pos,
-      1,
-    );
-    const val = dataView.getUint8(0);
-    this.#pos += 1;
-    return val;
+    return this.pop(InvalidUint8Error);
   }
 
   uint16(): number {
@@ -252,26 +255,14 @@ export class Decoder {
 
   float32(): number {
     this.validateKind(InvalidFloat32Error, Kind.Float32);
-    const dataView = new DataView(
-      this.buf.buffer,
-      this.buf.byteOffset + this.#pos,
-      4,
-    );
-    const val = dataView.getFloat32(0);
-    this.#pos += 4;
-    return val;
+    const val = this.take(InvalidFloat32Error, 4);
+    return new DataView(val.buffer, val.byteOffset).getFloat32(0);
   }
 
   float64(): number {
     this.validateKind(InvalidFloat64Error, Kind.Float64);
-    const dataView = new DataView(
-      this.buf.buffer,
-      this.buf.byteOffset + this.#pos,
-      8,
-    );
-    const val = dataView.getFloat64(0);
-    this.#pos += 8;
-    return val;
+    const val = this.take(InvalidFloat64Error, 8);
+    return new DataView(val.buffer, val.byteOffset).getFloat64(0);
   }
 
   array(valueKind: Kind): number {
@@ -287,28 +278,20 @@ export class Decoder {
   uint8Array(): Uint8Array {
     this.validateKind(InvalidUint8ArrayError, Kind.Uint8Array);
     const size = this.uint32();
-    const value = this.buf.slice(this.#pos, this.#pos + size);
-    this.#pos += size;
-    return value;
+    return this.take(InvalidUint8ArrayError, size);
   }
 
   string(): string {
     this.validateKind(InvalidStringError, Kind.String);
     const size = this.uint32();
-    const value = new TextDecoder().decode(
-      this.buf.slice(this.#pos, this.#pos + size),
-    );
-    this.#pos += size;
-    return value;
+    return new TextDecoder().decode(this.take(InvalidStringError, size));
   }
 
   error(): Error {
     this.validateKind(InvalidErrorError, Kind.Error, Kind.String);
     const size = this.uint32();
-    const value = new Error(
-      new TextDecoder().decode(this.buf.slice(this.#pos, this.#pos + size)),
+    return new Error(
+      new TextDecoder().decode(this.take(InvalidErrorError, size)),
     );
-    this.#pos += size;
-    return value;
   }
 }
-- 
2.43.0


From 836a64ee50c819aa8db99a6fe21156bdcfc4a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 22/34] fix: the TypeScript decoder keeps byte order marks and
 rejects invalid UTF-8

---
 decoder.ts | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 84dee12..6cb43d6 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -198,6 +198,18 @@ export class Decoder {
     return val;
   }
 
+  // Consumes the next size bytes, which must be valid UTF-8
+  private text(Err: new () => Error, size: number): string {
+    const val = this.take(Err, size);
+    try {
+      return new TextDecoder("utf-8", { fatal: true, ignoreBOM: true }).decode(
+        val,
+      );
+    } catch {
+      throw new Err();
+    }
+  }
+
   null(): boolean {
     const val = (this.peek() as Kind) === Kind.Null;
     if (val) {
@@ -284,14 +296,12 @@ export class Decoder {
   string(): string {
     this.validateKind(InvalidStringError, Kind.String);
     const size = this.uint32();
-    return new TextDecoder().decode(this.take(InvalidStringError, size));
+    return this.text(InvalidStringError, size);
   }
 
   error(): Error {
     this.validateKind(InvalidErrorError, Kind.Error, Kind.String);
     const size = this.uint32();
-    return new Error(
-      new TextDecoder().decode(this.take(InvalidErrorError, size)),
-    );
+    return new Error(this.text(InvalidErrorError, size));
   }
 }
-- 
2.43.0


From c28a0ee0e78fd843e3de8ebbe27277aa9113d607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:11 +0000
Subject: [PATCH 23/34] fix: CamelCase puts an X for a leading underscore, as
 documented

---
 utils/utils.go    | 3 ++-
 v2/utils/utils.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index edadb04..c14f61f 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -39,7 +39,8 @@ func CamelCase(s string) string {
 	}
 	t := make([]byte, 0, 32)
 	i := 0
-	if s[0] == '_' { // Keep the initial _ if it exists
+	if s[0] == '_' { // Replace the initial _ if it exists with X, to export the name
+		t = append(t, 'X')
 		i++
 	}
 	// Invariant: if the next letter is lower case, it must be converted
diff --git a/v2/utils/utils.go b/v2/utils/utils.go
index edadb04..c14f61f 100644
--- a/v2/utils/utils.go
+++ b/v2/utils/utils.go
@@ -39,7 +39,8 @@ func CamelCase(s string) string {
 	}
 	t := make([]byte, 0, 32)
 	i := 0
-	if s[0] == '_' { // Keep the initial _ if it exists
+	if s[0] == '_' { // Replace the initial _ if it exists with X, to export the name
+		t = append(t, 'X')
 		i++
 	}
 	// Invariant: if the next letter is lower case, it must be converted
-- 
2.43.0


From 105f38dff667e1fd9c505b90be3a1a32a7c42a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:41 +0000
Subject: [PATCH 24/34] fix: generated files carry the version without its
 newline, so that they parse

---
 v2/version/version.go | 4 +++-
 version/version.go    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/v2/version/version.go b/v2/version/version.go
index f725f09..8cf1758 100644
--- a/v2/version/version.go
+++ b/v2/version/version.go
@@ -18,11 +18,13 @@ package version
 
 import (
 	_ "embed"
+
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
diff --git a/version/version.go b/version/version.go
index f725f09..8cf1758 100644
--- a/version/version.go
+++ b/version/version.go
@@ -18,11 +18,13 @@ package version
 
 import (
 	_ "embed"
+
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
-- 
2.43.0


From 56bf998f8d0e8779f933a04ec4ccd529ed4b36e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:41 +0000
Subject: [PATCH 25/34] fix: generated Go decode methods of messages with
 nothing but maps compile

---
 generator/golang/templates/decode.templ    | 3 ++-
 v2/generator/golang/templates/decode.templ | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index e701386..a3e4929 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -70,7 +70,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index d953142..dde02e6 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -68,7 +68,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
-- 
2.43.0


From 0dc36b6643e54e530b44e40e4c6a4d77b4727b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:41 +0000
Subject: [PATCH 26/34] fix: generated Go decode methods of bytes lists and
 maps to bytes compile

---
 generator/golang/templates/decode.templ       | 2 ++
 generator/golang/templates/decodeMap.templ    | 2 ++
 v2/generator/golang/templates/decode.templ    | 2 ++
 v2/generator/golang/templates/decodeMap.templ | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index a3e4929..23a314e 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -56,6 +56,8 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/decodeMap.templ b/generator/golang/templates/decodeMap.templ
index 93bff31..db58116 100644
--- a/generator/golang/templates/decodeMap.templ
+++ b/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.Decoder, size uint32) err
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index dde02e6..c9eb2a6 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -54,6 +54,8 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/decodeMap.templ b/v2/generator/golang/templates/decodeMap.templ
index 9092a07..485e6b9 100644
--- a/v2/generator/golang/templates/decodeMap.templ
+++ b/v2/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.BufferDecoder, size uint3
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
-- 
2.43.0


From 4922a32c34550d327c5bb7757c98fb77ac863067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:41 +0000
Subject: [PATCH 27/34] fix: generated Go code for lists of enums compiles

---
 generator/golang/structs.go                | 2 +-
 generator/golang/templates/decode.templ    | 4 ++++
 generator/golang/templates/encode.templ    | 4 ++++
 v2/generator/golang/structs.go             | 2 +-
 v2/generator/golang/templates/decode.templ | 4 ++++
 v2/generator/golang/templates/encode.templ | 4 ++++
 6 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index b5bf4e0..99472be 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 23a314e..4b6c16b 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -58,6 +58,10 @@ var err error
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
     {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
     x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var {{ CamelCaseName $field.Name }}Temp uint32
+    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/encode.templ b/generator/golang/templates/encode.templ
index eb7a696..1a24608 100644
--- a/generator/golang/templates/encode.templ
+++ b/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{end -}}
         }
         {{end -}}
     {{end -}}
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index e4473c2..29f998d 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index c9eb2a6..8c9cd33 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -56,6 +56,10 @@ var err error
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
     {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
     x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var {{ CamelCaseName $field.Name }}Temp uint32
+    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/encode.templ b/v2/generator/golang/templates/encode.templ
index eb7a696..1a24608 100644
--- a/v2/generator/golang/templates/encode.templ
+++ b/v2/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{end -}}
         }
         {{end -}}
     {{end -}}
-- 
2.43.0


From 5298c99e21c151f7d34d3aaf042eac933c16d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:09 +0000
Subject: [PATCH 28/34] fix: generated Go decode methods do not keep a nested
 message of an earlier decode

---
 generator/golang/templates/decode.templ    | 2 --
 v2/generator/golang/templates/decode.templ | 2 ++
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 4b6c16b..ccf3837 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -88,9 +88,7 @@ var err error
         }
         }
     {{ else -}}
-        if x.{{ CamelCaseName $field.Name }} == nil {
         x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.Message.FullName }}()
-        }
         err = x.{{ CamelCaseName $field.Name }}.decode(d)
         if err != nil {
         return err
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 8c9cd33..a61140f 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -92,6 +92,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{end -}}
 {{end -}}
-- 
2.43.0


From 82097da14aadd91afb6ec32ecfcdd6969bf5998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:09 +0000
Subject: [PATCH 29/34] fix: generated Go decode methods do not allocate for
 sizes the input does not hold

---
 generator/golang/templates/decode.templ    | 7 +++++--
 v2/generator/golang/templates/decode.templ | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index ccf3837..48aa183 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -47,9 +47,12 @@ var err error
     return err
     }
     if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
+    x.{{ CamelCaseName $field.Name }} = nil
     }
     for i := uint32(0); i < sliceSize; i++ {
+    if uint32(len(x.{{ CamelCaseName $field.Name }})) == i {
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, make({{ FindValue $field }}, 1)...)
+    }
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
     if x.{{ CamelCaseName $field.Name }}[i] == nil {
@@ -81,7 +84,7 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(0)
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index a61140f..c7dc679 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -45,9 +45,12 @@ var err error
     return err
     }
     if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
+    x.{{ CamelCaseName $field.Name }} = nil
     }
     for i := uint32(0); i < sliceSize; i++ {
+    if uint32(len(x.{{ CamelCaseName $field.Name }})) == i {
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, make({{ FindValue $field }}, 1)...)
+    }
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
     if x.{{ CamelCaseName $field.Name }}[i] == nil {
@@ -79,7 +82,7 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(0)
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
-- 
2.43.0


From cb132782de5cc905e653215a5e801577fa029eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:32 +0000
Subject: [PATCH 30/34] fix: generated Rust encode methods of lists and maps
 compile

---
 generator/rust/templates/encode.templ    | 16 ++++++++++------
 v2/generator/rust/templates/encode.templ | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/generator/rust/templates/encode.templ b/generator/rust/templates/encode.templ
index 8a92671..699a24c 100644
--- a/generator/rust/templates/encode.templ
+++ b/generator/rust/templates/encode.templ
@@ -28,10 +28,12 @@ impl Encode for {{ CamelCase .FullName }} {
         {{else -}}
         b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), {{ GetKindLUT $field.Kind }})?;
         for item in &self.{{ SnakeCaseName $field.Name}} {
-            {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
-            b{{$encoder}}(&item)?;
-            {{ else -}}
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            b{{$encoder}}(*item as u32)?;
+            {{ else if or (eq $field.Kind 9) (eq $field.Kind 12) -}} {{/* protoreflect.StringKind, protoreflect.BytesKind */ -}}
             b{{$encoder}}(item)?;
+            {{ else -}}
+            b{{$encoder}}(*item)?;
             {{ end -}}
         }
         {{end -}}
@@ -51,11 +53,11 @@ impl Encode for {{ CamelCase .FullName }} {
             k.encode(b)?;
             {{else -}}
                 {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                b.encode_u32(k as u32)?;
+                b.encode_u32(*k as u32)?;
                 {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
-                b{{$keyEncoder}}(&k)?;
+                b{{$keyEncoder}}(k)?;
                 {{else -}}
-                    b{{$keyEncoder}}(k)?;
+                    b{{$keyEncoder}}(*k)?;
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
@@ -64,6 +66,8 @@ impl Encode for {{ CamelCase .FullName }} {
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 b.encode_u32(*v as u32)?;
+                {{ else if or (eq $field.MapValue.Kind 9) (eq $field.MapValue.Kind 12) -}} {{/* protoreflect.StringKind, protoreflect.BytesKind */ -}}
+                b{{$valEncoder}}(v)?;
                 {{else -}}
                     b{{$valEncoder}}(*v)?;
                 {{end -}}
diff --git a/v2/generator/rust/templates/encode.templ b/v2/generator/rust/templates/encode.templ
index 8a92671..699a24c 100644
--- a/v2/generator/rust/templates/encode.templ
+++ b/v2/generator/rust/templates/encode.templ
@@ -28,10 +28,12 @@ impl Encode for {{ CamelCase .FullName }} {
         {{else -}}
         b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), {{ GetKindLUT $field.Kind }})?;
         for item in &self.{{ SnakeCaseName $field.Name}} {
-            {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
-            b{{$encoder}}(&item)?;
-            {{ else -}}
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            b{{$encoder}}(*item as u32)?;
+            {{ else if or (eq $field.Kind 9) (eq $field.Kind 12) -}} {{/* protoreflect.StringKind, protoreflect.BytesKind */ -}}
             b{{$encoder}}(item)?;
+            {{ else -}}
+            b{{$encoder}}(*item)?;
             {{ end -}}
         }
         {{end -}}
@@ -51,11 +53,11 @@ impl Encode for {{ CamelCase .FullName }} {
             k.encode(b)?;
             {{else -}}
                 {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                b.encode_u32(k as u32)?;
+                b.encode_u32(*k as u32)?;
                 {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
-                b{{$keyEncoder}}(&k)?;
+                b{{$keyEncoder}}(k)?;
                 {{else -}}
-                    b{{$keyEncoder}}(k)?;
+                    b{{$keyEncoder}}(*k)?;
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
@@ -64,6 +66,8 @@ impl Encode for {{ CamelCase .FullName }} {
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 b.encode_u32(*v as u32)?;
+                {{ else if or (eq $field.MapValue.Kind 9) (eq $field.MapValue.Kind 12) -}} {{/* protoreflect.StringKind, protoreflect.BytesKind */ -}}
+                b{{$valEncoder}}(v)?;
                 {{else -}}
                     b{{$valEncoder}}(*v)?;
                 {{end -}}
-- 
2.43.0


From 28620092f0cbf7cfac346c40ac90ebd9edb61a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:32 +0000
Subject: [PATCH 31/34] fix: generated Rust decode methods of lists of enums
 compile

---
 generator/rust/templates/decode.templ    | 2 ++
 v2/generator/rust/templates/decode.templ | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 4232690..7bf435c 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 4232690..7bf435c 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
-- 
2.43.0


From 05276581249925f43e495dd49f97f7f8e6cc1b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:32 +0000
Subject: [PATCH 32/34] fix: generated Rust decode methods do not allocate for
 sizes the input does not hold

---
 generator/rust/templates/decode.templ    | 2 +-
 v2/generator/rust/templates/decode.templ | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 7bf435c..2682542 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -19,7 +19,7 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            let mut temp = Vec::new();
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 7bf435c..2682542 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -19,7 +19,7 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            let mut temp = Vec::new();
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
-- 
2.43.0


From 18e338a4c07a12ae63e807d1675684b7b6bc423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:32 +0000
Subject: [PATCH 33/34] fix: generated Rust code imports what enums and maps
 inside messages need

---
 generator/rust/imports.go    | 29 ++++++++++-------------------
 v2/generator/rust/imports.go | 29 ++++++++++-------------------
 2 files changed, 20 insertions(+), 38 deletions(-)

diff --git a/generator/rust/imports.go b/generator/rust/imports.go
index c8e7e00..45dae06 100644
--- a/generator/rust/imports.go
+++ b/generator/rust/imports.go
@@ -18,7 +18,6 @@ package rust
 
 import (
 	"google.golang.org/protobuf/compiler/protogen"
-	"google.golang.org/protobuf/reflect/protoreflect"
 )
 
 type Dependencies struct {
@@ -36,30 +35,22 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 		dependencies.Enums = true
 	}
 	for _, message := range file.Messages {
-		for _, field := range message.Fields {
-			if field.Desc.Kind() == protoreflect.MessageKind {
-				if field.Desc.Message().IsMapEntry() {
-					dependencies.Maps = true
-				}
-				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
-				}
-			}
-		}
+		dependencies = traverseMessage(message, dependencies)
 	}
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+func traverseMessage(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+	if len(message.Enums) > 0 {
+		dependencies.Enums = true
+	}
 	for _, field := range message.Fields {
-		if field.Desc.Kind() == protoreflect.MessageKind {
-			if field.Desc.Message().IsMapEntry() {
-				dependencies.Maps = true
-			}
-			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
-			}
+		if field.Desc.IsMap() {
+			dependencies.Maps = true
 		}
 	}
+	for _, nested := range message.Messages {
+		dependencies = traverseMessage(nested, dependencies)
+	}
 	return dependencies
 }
diff --git a/v2/generator/rust/imports.go b/v2/generator/rust/imports.go
index c8e7e00..45dae06 100644
--- a/v2/generator/rust/imports.go
+++ b/v2/generator/rust/imports.go
@@ -18,7 +18,6 @@ package rust
 
 import (
 	"google.golang.org/protobuf/compiler/protogen"
-	"google.golang.org/protobuf/reflect/protoreflect"
 )
 
 type Dependencies struct {
@@ -36,30 +35,22 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 		dependencies.Enums = true
 	}
 	for _, message := range file.Messages {
-		for _, field := range message.Fields {
-			if field.Desc.Kind() == protoreflect.MessageKind {
-				if field.Desc.Message().IsMapEntry() {
-					dependencies.Maps = true
-				}
-				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
-				}
-			}
-		}
+		dependencies = traverseMessage(message, dependencies)
 	}
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+func traverseMessage(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+	if len(message.Enums) > 0 {
+		dependencies.Enums = true
+	}
 	for _, field := range message.Fields {
-		if field.Desc.Kind() == protoreflect.MessageKind {
-			if field.Desc.Message().IsMapEntry() {
-				dependencies.Maps = true
-			}
-			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
-			}
+		if field.Desc.IsMap() {
+			dependencies.Maps = true
 		}
 	}
+	for _, nested := range message.Messages {
+		dependencies = traverseMessage(nested, dependencies)
+	}
 	return dependencies
 }
-- 
2.43.0


From 6b3685f3ba728ea0006c5a428d4018d09e34742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:32 +0000
Subject: [PATCH 34/34] fix: generated Go and Rust code holds the enums of
 nested messages

---
 generator/golang/templates/messages.templ    | 4 ----
 generator/golang/templates/structs.templ     | 3 +++
 generator/rust/templates/messages.templ      | 4 ----
 generator/rust/templates/structs.templ       | 3 +++
 v2/generator/golang/templates/messages.templ | 4 ----
 v2/generator/golang/templates/structs.templ  | 3 +++
 v2/generator/rust/templates/messages.templ   | 4 ----
 v2/generator/rust/templates/structs.templ    | 3 +++
 8 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/generator/golang/templates/messages.templ b/generator/golang/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/generator/golang/templates/messages.templ
+++ b/generator/golang/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index 6fc09e7..e70e9ce 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -1,4 +1,7 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{ template "enum" ($.Enums.Get $i) }}
+    {{ end }}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/generator/rust/templates/messages.templ b/generator/rust/templates/messages.templ
index db077ec..195744a 100644
--- a/generator/rust/templates/messages.templ
+++ b/generator/rust/templates/messages.templ
@@ -8,10 +8,6 @@ pub trait Decode {
 }
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/rust/templates/structs.templ b/generator/rust/templates/structs.templ
index 8890eca..3f38c71 100644
--- a/generator/rust/templates/structs.templ
+++ b/generator/rust/templates/structs.templ
@@ -1,4 +1,7 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{ template "enum" ($.Enums.Get $i) }}
+    {{ end }}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/golang/templates/messages.templ b/v2/generator/golang/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/v2/generator/golang/templates/messages.templ
+++ b/v2/generator/golang/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/golang/templates/structs.templ b/v2/generator/golang/templates/structs.templ
index 0f3c571..a870701 100644
--- a/v2/generator/golang/templates/structs.templ
+++ b/v2/generator/golang/templates/structs.templ
@@ -1,4 +1,7 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{ template "enum" ($.Enums.Get $i) }}
+    {{ end }}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/rust/templates/messages.templ b/v2/generator/rust/templates/messages.templ
index db077ec..195744a 100644
--- a/v2/generator/rust/templates/messages.templ
+++ b/v2/generator/rust/templates/messages.templ
@@ -8,10 +8,6 @@ pub trait Decode {
 }
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/rust/templates/structs.templ b/v2/generator/rust/templates/structs.templ
index 8890eca..3f38c71 100644
--- a/v2/generator/rust/templates/structs.templ
+++ b/v2/generator/rust/templates/structs.templ
@@ -1,4 +1,7 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{ template "enum" ($.Enums.Get $i) }}
+    {{ end }}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
-- 
2.43.0

