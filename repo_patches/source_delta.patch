From 9dd9e12b020c3928febee84bdbcff5956d5adac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 01/45] fix: bool encoder Flush clears the partial byte

After a Flush in the middle of a byte the bits of the old byte stayed set and
were or-ed into the first byte written afterwards.
---
 orc/encoding/bool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index 6dcd439..9874427 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -62,6 +62,7 @@ func (e *boolRunLength) Flush(out *bytes.Buffer) error {
 		return err
 	}
 	e.index = -1
+	e.value = 0
 	return nil
 }
 
-- 
2.43.0


From 26307731e3f74fc6739e484418636884a582d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 02/45] fix: short repeat runs keep the zero bytes of the value

Zero bytes inside the value, and the only byte of the value zero, were not
written although the run's width counts them.
---
 orc/encoding/int.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ee091f4..d9745f2 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -1106,26 +1106,21 @@ func findRepeatsInBytes(values []byte, minRepeat int) (repeats []repeat) {
 func writeShortRepeat(count int, x uint64, out *bytes.Buffer) error {
 	header := byte(count & 0x07)         // count
 	header |= Encoding_SHORT_REPEAT << 6 // encoding
-	var w byte
-	bb := bytes.NewBuffer(make([]byte, 8))
-	bb.Reset()
-	for j := 7; j >= 0; j-- { //
-		b := byte(x >> uint(8*j))
-		if b != 0x00 {
-			if byte(j) > w { // [1, 8]
-				w = byte(j)
-			}
-			if err := bb.WriteByte(b); err != nil {
-				return errors.WithStack(err)
-			}
+	w := 0 // index of the highest non zero byte, width is w+1 [1, 8]
+	for j := 7; j > 0; j-- {
+		if byte(x>>uint(8*j)) != 0x00 {
+			w = j
+			break
 		}
 	}
-	header |= w << 3 // W
+	header |= byte(w) << 3 // W
 	if err := out.WriteByte(header); err != nil {
 		return errors.WithStack(err)
 	}
-	if _, err := bb.WriteTo(out); err != nil {
-		return errors.WithStack(err)
+	for j := w; j >= 0; j-- { // big endian
+		if err := out.WriteByte(byte(x >> uint(8*j))); err != nil {
+			return errors.WithStack(err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 8cc563da3368ae71cee0ce0f2fc2b619253da110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 03/45] fix: delta runs of large integers no longer overflow
 the varint buffer

A 64-bit varint takes up to 10 bytes; binary.PutVarint panicked on the 8 byte
buffers.
---
 orc/encoding/int.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index d9745f2..f930631 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -442,7 +442,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			} else {
 
 				// fixed delta 0
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -460,7 +460,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			// delta, need width should be stable?
 			dv := &deltaValues{}
 			if tryDeltaEncoding(e.signed, e.values, dv) {
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -910,7 +910,7 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 		return errors.WithStack(err)
 	}
 	// write delta base
-	db := make([]byte, 8)
+	db := make([]byte, binary.MaxVarintLen64)
 	n := binary.PutVarint(db, deltaBase)
 	if _, err := out.Write(db[:n]); err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From 6fad7a393ce69ab1917b806b083e7f8031be2ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 04/45] fix: delta runs whose deltas are all zero or 12 bits
 wide are written

Width 0 stands for a fixed delta, so all-zero deltas need a width of their own,
and width 12 (which getAlignedWidth returns) was not handled.
---
 orc/encoding/int.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index f930631..550690b 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -888,9 +888,12 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 			width = byte(bits)
 		}
 	}
-	if width == 1 { // delta width no 1?
+	if width < 2 && len(deltas) != 0 { // no width 1, and width 0 means a fixed delta
 		width = 2
 	}
+	if width == 12 { // deltas are written in whole bytes
+		width = 16
+	}
 	w, err := widthEncoding(int(width))
 	if err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From 43b6cd2d0f6a03d53c740e14766e73e74ed2daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 05/45] fix: integer runs never exceed 512 values

When no encoding but direct fits the buffered values, a full buffer was kept
and grew without limit; its length then did not fit the 9 bits of the header.
---
 orc/encoding/int.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 550690b..af80fbe 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -431,6 +431,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 	}
 
 	for len(e.values) != 0 {
+		count := len(e.values)
 		repeat := getRepeats(e.values)
 		if repeat >= 3 { // repeat
 			// short repeat
@@ -486,7 +487,8 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			}
 
 			// rethink: rest all will be direct ?
-			if toEnd && len(e.values) != 0 {
+			// nothing else fits: do not let values grow over the max run length
+			if (toEnd || len(e.values) == count) && len(e.values) != 0 {
 				if err := e.writeDirect(out, true); err != nil {
 					return err
 				}
-- 
2.43.0


From 44a0b7e1e7da23a332026b5178dd1e1f2a044295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 06/45] fix: patched base runs are written only when the format
 can hold them

Widths without a code, more than 31 patches, a base of -2^63, a single patch at
index 0 and more than 255 values of one width led to errors, panics or
corrupt runs.
---
 orc/encoding/int.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index af80fbe..f276780 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -705,7 +705,7 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 			width = width_
 		}
 	}
-	deltaValuesWidthHist := make([]byte, BITS_SLOTS) // values bits width 0 to 64
+	deltaValuesWidthHist := make([]int, BITS_SLOTS) // values bits width 0 to 64
 	for i := 0; i < count; i++ {
 		deltaValuesWidthHist[deltaValuesWidths[i]] += 1
 	}
@@ -713,15 +713,18 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 	p90len := int(float64(count) * 0.9)
 	l := 0
 	for i := 0; i < BITS_SLOTS; i++ {
-		l += int(deltaValuesWidthHist[i])
+		l += deltaValuesWidthHist[i]
 		if l >= p90len && deltaValuesWidthHist[i] != 0 {
 			w = byte(i)
 			break
 		}
 	}
 
+	w = byte(getEncodableWidth(int(w)))
+
 	logger.Tracef("int rl v2 try patch, 90%% width %d and width %d of adjusted values", w, width)
-	if width > w {
+	// base needs at most 8 bytes including the sign, gap and patch at most 64 bits
+	if width > w && base != math.MinInt64 && 8+getEncodableWidth(int(width-w)) <= 64 {
 		pvs.base = base
 		pvs.values = deltaValues
 		pvs.width = w
@@ -746,9 +749,8 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 				previousGap = i
 			}
 		}
-		if len(pvs.patches) > 31 {
-			// fixme: how to handle this
-			panic("patches max 31")
+		if len(pvs.patches) > 31 { // patch list length has 5 bits
+			return false
 		}
 
 		logger.Tracef("int rl v2 will do PATCH %d values", pvs.count)
@@ -801,6 +803,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 			patchWidth = patchWidth_
 		}
 	}
+	patchWidth = getEncodableWidth(patchWidth)
 	pw, err := widthEncoding(patchWidth)
 	if err != nil {
 		return errors.WithStack(err)
@@ -809,7 +812,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 
 	// 3 bits for PGW (patch gap width) (1 to 8 bits)
 	// so max pg for 3 bits pgw is 255
-	var pgw int
+	pgw := 1
 	for _, g := range pvs.gaps {
 		pgw_ := getBitsWidth(uint64(g))
 		if pgw_ > pgw {
@@ -1055,6 +1058,22 @@ func getAlignedWidth(x uint64) int {
 	return int(n)
 }
 
+// smallest width the width table has a code for that holds width bits
+func getEncodableWidth(width int) int {
+	switch {
+	case width < 1:
+		return 1
+	case width <= 21:
+		return width
+	case width <= 24:
+		return 24
+	case width <= 32:
+		return (width + 1) / 2 * 2
+	default:
+		return (width + 7) / 8 * 8
+	}
+}
+
 // find repeats from start
 func getRepeats(values []uint64) int {
 	if len(values) == 0 {
-- 
2.43.0


From 10fd572f97a3227c6b902a10e3a892a67b94c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:46 +0000
Subject: [PATCH 07/45] fix: bit fields wider than 56 bits keep all their bits

A wide field that does not start at a byte boundary needs more than 64 bits
together with the bits left over: reading lost the high bits, writing failed.
---
 orc/encoding/int.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index f276780..8d0e5ed 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -291,6 +291,17 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 }
 
 func (d *intRLV2Decoder) readBits(in io.ByteReader, bits int) (value uint64, err error) {
+	if bits > 56 { // does not fit together with the bits left over
+		high, err := d.readBits(in, bits-32)
+		if err != nil {
+			return 0, err
+		}
+		low, err := d.readBits(in, 32)
+		if err != nil {
+			return 0, err
+		}
+		return high<<32 | low, nil
+	}
 	hasBits := d.bitsLeft
 	data := uint64(d.lastByte)
 	for ; hasBits < bits; hasBits += 8 {
@@ -341,10 +352,14 @@ func (d *intRLV2Encoder) forgetBits() {
 }
 
 func (e *intRLV2Encoder) writeBits(value uint64, bits int, out *bytes.Buffer) (err error) {
-	totalBits := e.bitsLeft + bits
-	if totalBits > 64 {
-		return errors.New("write bits > 64")
+	if e.bitsLeft+bits > 64 { // does not fit together with the bits left over
+		if err = e.writeBits(value>>32, bits-32, out); err != nil {
+			return err
+		}
+		value &= 0xffffffff
+		bits = 32
 	}
+	totalBits := e.bitsLeft + bits
 
 	if e.lastByte != 0 {
 		value = (uint64(e.lastByte) << bits) | value // last byte and value should not overlap
-- 
2.43.0


From 87568ffbeeabaac9cfae373150624b6d77cecc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 08/45] fix: fixed delta runs are decoded as an arithmetic
 progression

Every value after the first was decoded as base plus delta, and a run of
length 1 as two values.
---
 orc/encoding/int.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 8d0e5ed..124c4f4 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -152,6 +152,9 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 			return errors.WithStack(err)
 		}
 
+		if length == 1 {
+			return nil
+		}
 		if d.signed {
 			d.uvs = append(d.uvs, Zigzag(base+deltaBase))
 		} else {
@@ -166,13 +169,14 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		d.forgetBits()
 		for i := 2; i < length; i++ {
 			if width == 0 { //fixed delta
+				prev := d.uvs[len(d.uvs)-1]
 				if d.signed {
-					d.uvs = append(d.uvs, Zigzag(base+deltaBase))
+					d.uvs = append(d.uvs, Zigzag(UnZigzag(prev)+deltaBase))
 				} else {
 					if deltaBase >= 0 {
-						d.uvs = append(d.uvs, ubase+uint64(deltaBase))
+						d.uvs = append(d.uvs, prev+uint64(deltaBase))
 					} else {
-						d.uvs = append(d.uvs, ubase-uint64(-deltaBase))
+						d.uvs = append(d.uvs, prev-uint64(-deltaBase))
 					}
 				}
 			} else {
-- 
2.43.0


From cbcb16f5f7ac0a7de290a81dd18c9c41b341f92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 09/45] fix: a patch outside of a patched base run is an error,
 not a panic

Patches of 64 bits including the gap are accepted, as the format allows.
---
 orc/encoding/int.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 124c4f4..363ba26 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -229,7 +229,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		return err
 	}
 	pgw := uint16(header[3])>>5&0x07 + 1 // 3 bits patch gap width(PGW), value 1 to 8 bits
-	if (int(pw) + int(pgw)) >= 64 {
+	if (int(pw) + int(pgw)) > 64 {
 		return errors.New("decoding: int rl v2, patchWidth+gapWidth must less or equal to 64")
 	}
 	pll := header[3] & 0x1f // 5bits patch list length, value 0 to 31
@@ -279,6 +279,9 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 
 		patchGap := int(pp >> pw)
 		mark += patchGap
+		if mark >= len(d.uvs) {
+			return errors.New("decoding: int rl v2, patch outside of the run")
+		}
 		patch := pp & ((1 << pw) - 1)
 
 		// todo: check gap==255 and patch==0
-- 
2.43.0


From 939c02dd0753bb0b064ac37a77b719e9e1cff84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 10/45] fix: patched base runs of unsigned streams are decoded

The format allows them and other writers emit them.
---
 orc/encoding/int.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 363ba26..080edb9 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -107,11 +107,6 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		}
 
 	case Encoding_PATCHED_BASE:
-		// rethink: according to base value is a signed smallest value, patch should always signed?
-		if !d.signed {
-			return errors.New("decoding: int rl v2 patch signed setting should not false")
-		}
-
 		if err = d.readPatched(in, firstByte); err != nil {
 			return err
 		}
@@ -266,7 +261,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 			return err
 		}
 		// rethink: cast int64
-		d.uvs = append(d.uvs, Zigzag(base+int64(delta)))
+		d.uvs = append(d.uvs, d.fromSigned(base+int64(delta)))
 	}
 
 	// decode patch values, PGW+PW must < 64
@@ -287,16 +282,31 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		// todo: check gap==255 and patch==0
 
 		// patchValue should be at largest 63 bits?
-		v := UnZigzag(d.uvs[mark])
+		v := d.toSigned(d.uvs[mark])
 		v -= base // remove added base first
 		v |= int64(patch << width)
 		v += base // add base back
-		d.uvs[mark] = Zigzag(v)
+		d.uvs[mark] = d.fromSigned(v)
 	}
 
 	return nil
 }
 
+// value as kept in uvs: zigzag if signed
+func (d *intRLV2Decoder) fromSigned(v int64) uint64 {
+	if d.signed {
+		return Zigzag(v)
+	}
+	return uint64(v)
+}
+
+func (d *intRLV2Decoder) toSigned(u uint64) int64 {
+	if d.signed {
+		return UnZigzag(u)
+	}
+	return int64(u)
+}
+
 func (d *intRLV2Decoder) readBits(in io.ByteReader, bits int) (value uint64, err error) {
 	if bits > 56 { // does not fit together with the bits left over
 		high, err := d.readBits(in, bits-32)
-- 
2.43.0


From 71fc8aa5c6fd9866b486102f99075d9601bfcca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 11/45] fix: direct runs of zeros have width 1

The width table has no code for width 0, a reader takes it for 1.
---
 orc/encoding/int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 080edb9..ea83a4b 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -537,7 +537,7 @@ func (e *intRLV2Encoder) writeDirect(out *bytes.Buffer, widthAlign bool) error {
 	header := make([]byte, 2)
 	header[0] = Encoding_DIRECT << 6
 
-	var width int
+	width := 1 // width 0 has no code
 	for _, v := range e.values {
 		var w int
 		if widthAlign {
-- 
2.43.0


From f3f2b485ce855392ee36e9182e65177e7e3b3307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 12/45] fix: ReadVUint returns the error of the reader

---
 orc/encoding/package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/package.go b/orc/encoding/package.go
index a6d666a..1d8bb41 100755
--- a/orc/encoding/package.go
+++ b/orc/encoding/package.go
@@ -275,7 +275,7 @@ func ReadVUint(in io.ByteReader) (r uint64, err error) {
 	for {
 		b, err = in.ReadByte()
 		if err != nil {
-			errors.WithStack(err)
+			return 0, errors.WithStack(err)
 		}
 		r |= uint64(0x7f&b) << shift
 		shift += 7
-- 
2.43.0


From 27a83ce4cd2550bc3956c23d5c7ae13e55e7cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 13/45] fix: the date encoder passes days as int64

The signed integer encoder takes int64 only, every date was refused.
---
 orc/encoding/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/time.go b/orc/encoding/time.go
index c124e56..fa26365 100644
--- a/orc/encoding/time.go
+++ b/orc/encoding/time.go
@@ -16,7 +16,7 @@ type dateV2Encoder struct {
 func (e *dateV2Encoder) Encode(v interface{}, out *bytes.Buffer) error {
 	date := v.(api.Date)
 	days := api.ToDays(date)
-	if err := e.intEncoder.Encode(days, out); err != nil {
+	if err := e.intEncoder.Encode(int64(days), out); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From 2cf72f7891befb29b867141d584732f061dd79c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:59 +0000
Subject: [PATCH 14/45] fix: dates further than 292 years from 1970 convert
 exactly

time.Duration holds about 292 years, day numbers beyond wrapped around or were
cut off.
---
 orc/api/vector.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 36fbd0f..1357460 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -116,17 +116,21 @@ func (d *Date) String() string {
 	return time.Time(*d).Format("2006-01-02")
 }
 
+const secondsPerDay = 24 * 60 * 60
+
 func FromDays(days int32) Date {
-	d := time.Duration(int64(days) * 24 * int64(time.Hour))
-	t := Date(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).Add(d))
-	return t
+	return Date(time.Unix(int64(days)*secondsPerDay, 0).UTC())
 }
 
 // days from 1970, Jan, 1 UTC
 func ToDays(d Date) int32 {
 	// time.Time(d).UTC() ??
-	s := time.Time(d).Sub(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC))
-	return int32(s.Hours() / 24)
+	s := time.Time(d).Unix()
+	days := s / secondsPerDay
+	if s%secondsPerDay < 0 { // before 1970
+		days--
+	}
+	return int32(days)
 }
 
 type Timestamp struct {
-- 
2.43.0


From 2809674a3b496191fcf87251ab2a3de453551199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 15/45] fix: GetTimestamp counts from 2015 in the location it
 records

Timestamp.Time adds the seconds to 2015-01-01 in the timestamp's location, so
every time outside UTC was shifted.
---
 orc/api/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 1357460..c34d9c6 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -166,7 +166,7 @@ func (t Timestamp) GetMilliSecondsUtc() int64 {
 }
 
 func GetTimestamp(t time.Time) Timestamp {
-	base := time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
+	base := time.Date(2015, 1, 1, 0, 0, 0, 0, t.Location()).Unix()
 	return Timestamp{t.Location(), t.Unix() - base, uint64(t.Nanosecond())}
 }
 
-- 
2.43.0


From 7e5f3add3747cf7b93b9debd4f1ae3c5bfaa3e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 16/45] fix: CompressingAllInChunks without compression

It copied the data and then returned an error, stripe footers of uncompressed
files could not be written.
---
 orc/common/misc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index b981e15..e3cfb4f 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -22,6 +22,9 @@ func CompressingAllInChunks(kind pb.CompressionKind, chunkSize int, dst *bytes.B
 	if err := CompressingChunks(kind, chunkSize, dst, src); err != nil {
 		return err
 	}
+	if kind == pb.CompressionKind_NONE { // everything is written
+		return nil
+	}
 	return CompressingLeft(kind, chunkSize, dst, src)
 }
 
-- 
2.43.0


From be7d7a19799713ec4560a59ccc248adce026d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 17/45] fix: every compressed chunk starts a deflate stream of
 its own

The compressor was used again after Close without a reset.
---
 orc/common/misc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index e3cfb4f..d56f945 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -65,6 +65,7 @@ func zlibCompressingToChunks(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer
 		}
 
 		cBuf.Reset()
+		compressor.Reset(cBuf)
 		if _, err = compressor.Write(buf); err != nil {
 			return errors.WithStack(err)
 		}
-- 
2.43.0


From 97b0dedaa8c2fe41be816a9dbec6d3d24b1076af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:07 +0000
Subject: [PATCH 18/45] fix: a truncated chunk header is an error

---
 orc/common/misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index d56f945..5016da3 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -236,7 +236,7 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 	case pb.CompressionKind_ZLIB:
 		for src.Len() > 0 {
 			header := make([]byte, 3)
-			if _, err = src.Read(header); err != nil {
+			if _, err = io.ReadFull(src, header); err != nil {
 				return errors.WithStack(err)
 			}
 
-- 
2.43.0


From 4ffcc5de4f3c8e3a67e4463ab5d9d4ab50fb97c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 19/45] fix: stream writers without compression can be reset

---
 orc/stream/writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/stream/writer.go b/orc/stream/writer.go
index 7b4fd0f..ff8cee7 100644
--- a/orc/stream/writer.go
+++ b/orc/stream/writer.go
@@ -99,7 +99,9 @@ func (w *writer) Reset() {
 	*w.info.Length = 0
 
 	w.buf.Reset()
-	w.compressedBuf.Reset()
+	if w.compressedBuf != nil {
+		w.compressedBuf.Reset()
+	}
 
 	w.positions = w.positions[:0]
 }
-- 
2.43.0


From 2d2dbfe34b5dab90c2f062e3e2a278f603991293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 20/45] fix: encoders report position 0 after a flush

The position of the last value before the flush was kept, so a position
recorded at the start of the next stripe pointed behind its first values.
---
 orc/encoding/bool.go | 3 +++
 orc/encoding/byte.go | 3 +++
 orc/encoding/int.go  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index 9874427..ad3a3b4 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -63,6 +63,9 @@ func (e *boolRunLength) Flush(out *bytes.Buffer) error {
 	}
 	e.index = -1
 	e.value = 0
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
diff --git a/orc/encoding/byte.go b/orc/encoding/byte.go
index 7c90679..bf33755 100644
--- a/orc/encoding/byte.go
+++ b/orc/encoding/byte.go
@@ -42,6 +42,9 @@ func (e *byteRunLength) Flush(out *bytes.Buffer) error {
 	for len(e.values) != 0 {
 		e.encodeBytes(out, true)
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ea83a4b..d0a813c 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -450,6 +450,9 @@ func (e *intRLV2Encoder) Flush(out *bytes.Buffer) error {
 		}
 		e.forgetBits()
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
-- 
2.43.0


From 46cee5c33f98f8ea39b524ffa4f23d9abb246836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:15 +0000
Subject: [PATCH 21/45] fix: timestamp and decimal column readers store the
 value they read

---
 orc/column/decimal.go | 7 ++++---
 orc/column/time.go    | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index d4909f4..1c51fbc 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -231,9 +231,10 @@ func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if scale, err = r.secondary.NextInt64(); err != nil {
 				return err
 			}
-			d:= vec.Vector[i].V.(api.Decimal64)
-			d.Precision= precision
-			d.Scale= int(scale)
+			d, _ := vec.Vector[i].V.(api.Decimal64)
+			d.Precision = precision
+			d.Scale = int(scale)
+			vec.Vector[i].V = d
 		}
 	}
 	return nil
diff --git a/orc/column/time.go b/orc/column/time.go
index 97c1697..150ed35 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -502,9 +502,10 @@ func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if ns, err = r.secondary.NextUInt64(); err != nil {
 				return err
 			}
-			t:= vec.Vector[i].V.(api.Timestamp)
-			t.Seconds= s
-			t.Nanos= api.DecodingTimestampNanos(ns)
+			t, _ := vec.Vector[i].V.(api.Timestamp)
+			t.Seconds = s
+			t.Nanos = api.DecodingTimestampNanos(ns)
+			vec.Vector[i].V = t
 		}
 	}
 	return nil
-- 
2.43.0


From c8ccfe2712baa2a08f10de55e9cfe788ecd5175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:17 +0000
Subject: [PATCH 22/45] fix: the date column reader can seek to the start of a
 stripe

---
 orc/column/time.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/orc/column/time.go b/orc/column/time.go
index 150ed35..753bf98 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -221,6 +221,15 @@ func (r *DateV2Reader) Skip(rows uint64) error {
 }
 
 func (r *DateV2Reader) SeekStride(stride int) error {
+	if stride == 0 {
+		if r.present != nil {
+			if err := r.present.Seek(0, 0, 0, 0); err != nil {
+				return err
+			}
+		}
+		return r.data.Seek(0, 0, 0)
+	}
+
 	pos, err := r.getStridePositions(stride)
 	if err != nil {
 		return err
@@ -247,7 +256,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	if r.opts.CompressionKind == pb.CompressionKind_NONE {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunkOffset = pos[3]
 			dataOffset = pos[4]
 		} else {
@@ -255,7 +264,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 			dataOffset = pos[1]
 		}
 	} else {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunk = pos[4]
 			dataChunkOffset = pos[5]
 			dataOffset = pos[6]
-- 
2.43.0


From 226bf29cf94c8a8388569608632fd8ad2a0965b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 23/45] fix: seeking to a stride that does not exist is an
 error

---
 orc/column/reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/column/reader.go b/orc/column/reader.go
index d2635ad..ee5a389 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -69,6 +69,7 @@ func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
 	}
 	if stride > len(r.index.Entry) {
 		err = errors.Errorf("stride %d does not exist", stride)
+		return
 	}
 	pos = r.index.Entry[stride-1].Positions
 	return
-- 
2.43.0


From 931bbddba12b1138a4cc7e3e613181b1c098e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:20 +0000
Subject: [PATCH 24/45] fix: string columns do not panic without a present
 stream or on a bad dictionary index

---
 orc/column/string.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 29cb5ae..85356ed 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -361,7 +361,7 @@ func (r *StringDirectV2Reader) SeekStride(stride int) error {
 }
 
 func (r *StringDirectV2Reader) Close() {
-	if r.schema.HasNulls {
+	if r.present != nil {
 		r.present.Close()
 	}
 	r.data.Close()
@@ -441,6 +441,9 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if data, err = r.data.NextUInt64(); err != nil {
 				return err
 			}
+			if data >= uint64(len(r.dictStrings)) {
+				return errors.Errorf("dictionary has no entry %d", data)
+			}
 			vec.Vector[i].V = r.dictStrings[data]
 		}
 	}
-- 
2.43.0


From d2e9dd5efc1e159337c23c33fc54d61f88a1f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 25/45] fix: binary skip and byte stream initialisation report
 their errors

---
 orc/column/binary.go | 2 +-
 orc/column/byte.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index ddaddfb..cf1c126 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -197,7 +197,7 @@ func (r *BinaryV2Reader) Skip(rows uint64) error {
 				return err
 			}
 			if _, err = r.data.NextBytes(l); err != nil {
-				return nil
+				return err
 			}
 		}
 	}
diff --git a/orc/column/byte.go b/orc/column/byte.go
index adafb26..71a9e2f 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -161,7 +161,7 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
 	case pb.Stream_DATA:
 		r.data = stream.NewByteReader(r.opts, info, startOffset, f)
 	default:
-		err = errors.New("stream kind error")
+		return errors.New("stream kind error")
 	}
 	return nil
 }
-- 
2.43.0


From 3e9e78c7d4bbec0b08b8dbdacf5662ae74b0b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:24 +0000
Subject: [PATCH 26/45] fix: char and varchar columns that were written can be
 read

---
 orc/column/package.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/column/package.go b/orc/column/package.go
index 9c7244a..2e214e8 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -95,6 +95,10 @@ func NewReader(schema *api.TypeDescription, opts *config.ReaderOptions, in orcio
 		}
 		return NewFloatReader(schema, opts, in, true), nil
 
+	case pb.Type_CHAR:
+		fallthrough
+	case pb.Type_VARCHAR:
+		fallthrough
 	case pb.Type_STRING:
 		if schema.Encoding == pb.ColumnEncoding_DIRECT_V2 {
 			return NewStringDirectV2Reader(opts, schema, in), nil
-- 
2.43.0


From b4c4b653c5a0372e98fa59bf13f70d98ae337969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:01 +0000
Subject: [PATCH 27/45] fix: null structs hide the rows of nested structs and
 are skipped with their present flags

---
 orc/column/reader.go |  4 ++++
 orc/column/struct.go | 29 ++++++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/orc/column/reader.go b/orc/column/reader.go
index ee5a389..18753f0 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -30,6 +30,10 @@ func (r *reader) String() string {
 	return sb.String()
 }
 
+func (r *reader) hasNulls() bool {
+	return r.schema.HasNulls
+}
+
 func (r *reader) InitIndex(startOffset uint64, length uint64) error {
 	if _, err := r.f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return errors.WithStack(err)
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 0d08bea..0e9f5d3 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -110,6 +110,23 @@ func (r *StructReader) Skip(rows uint64) error {
 				if err := c.Skip(1); err != nil {
 					return err
 				}
+			} else if err := skipNull(c); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
+// skipNull skips a row of a column whose parent is null, such a row has a present flag if the column has nulls
+func skipNull(c Reader) error {
+	if n, ok := c.(interface{ hasNulls() bool }); ok && n.hasNulls() {
+		return c.Skip(1)
+	}
+	if s, ok := c.(*StructReader); ok {
+		for _, child := range s.children {
+			if err := skipNull(child); err != nil {
+				return err
 			}
 		}
 	}
@@ -125,7 +142,7 @@ func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 			}
 			vec.Vector[i].Null = !p
 		}
-		fillNulls(vec)
+		fillNulls(vec, vec.Vector)
 	}
 
 	for i, c := range r.children {
@@ -136,12 +153,14 @@ func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 	return nil
 }
 
-func fillNulls(vec *api.ColumnVector) {
+func fillNulls(vec *api.ColumnVector, rows []api.Value) {
 	for _, c := range vec.Children {
-		for i, v := range vec.Vector {
-			c.Vector[i].Null = v.Null
+		for i := range c.Vector {
+			c.Vector[i].Null = rows[i].Null
+		}
+		if c.Kind == pb.Type_STRUCT { // may have no vector itself
+			fillNulls(c, rows)
 		}
-		fillNulls(c)
 	}
 }
 
-- 
2.43.0


From abedbf88de6e064f748ee8dd1d3269a59bb46b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:03 +0000
Subject: [PATCH 28/45] fix: skipping a map skips its entries once

---
 orc/column/map.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/orc/column/map.go b/orc/column/map.go
index 05434ee..d3e198b 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -114,13 +114,11 @@ func (r *MapV2Reader) Skip(rows uint64) error {
 			if err != nil {
 				return err
 			}
-			for j := 0; j < int(l); j++ {
-				if err := r.key.Skip(l); err != nil {
-					return err
-				}
-				if err := r.value.Skip(l); err != nil {
-					return err
-				}
+			if err := r.key.Skip(l); err != nil {
+				return err
+			}
+			if err := r.value.Skip(l); err != nil {
+				return err
 			}
 		}
 	}
-- 
2.43.0


From 42024a775cc543e2bdba0dd2c85fdc3fbefa82ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 29/45] fix: binary columns write the length of their values

---
 orc/column/binary.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index cf1c126..9885b08 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -46,11 +46,20 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 		}
 	}
 
+	var dataLength int
 	if !value.Null {
-		if err := w.data.Write(value.V); err != nil {
+		data, ok := value.V.([]byte)
+		if !ok {
+			return errors.New("binary column writing, value should be []byte")
+		}
+		dataLength = len(data)
+		if err := w.data.Write(data); err != nil {
+			return err
+		}
+		if err := w.length.Write(uint64(dataLength)); err != nil {
 			return err
 		}
-		*w.stats.BinaryStatistics.Sum++
+		*w.stats.BinaryStatistics.Sum += int64(dataLength)
 		*w.stats.NumberOfValues++
 	}
 
@@ -73,7 +82,7 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 			w.indexInRows = 0
 		}
 		if !value.Null {
-			*w.indexStats.BinaryStatistics.Sum++
+			*w.indexStats.BinaryStatistics.Sum += int64(dataLength)
 			*w.indexStats.NumberOfValues++
 		}
 	}
-- 
2.43.0


From 48b133930ba1e4dbb0a645abb9b49f9c0d1534d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:33 +0000
Subject: [PATCH 30/45] fix: dictionary encoded string columns can be flushed
 and reset

---
 orc/column/string.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 85356ed..f4062c0 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -593,8 +593,8 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		l := len(data)
 
 		vs := w.data[s]
-		w.count++
 		vs = append(vs, w.count)
+		w.count++
 		w.data[s] = vs
 
 		*w.stats.NumberOfValues++
@@ -676,15 +676,15 @@ func (w *stringDictionaryV2Writer) Flush() error {
 		}
 	}
 	for _, v := range data {
-		if err := w.dataStream.Write(v); err != nil {
+		if err := w.dataStream.Write(uint64(v)); err != nil {
 			return err
 		}
 	}
 	for _, v := range dict {
-		if err := w.dictStream.Write(v); err != nil {
+		bs := []byte(v)
+		if err := w.dictStream.Write(bs); err != nil {
 			return err
 		}
-		bs := []byte(v)
 		if err := w.lengthStream.Write(uint64(len(bs))); err != nil {
 			return err
 		}
@@ -742,7 +742,7 @@ func (w stringDictionaryV2Writer) GetStreamInfos() []*pb.Stream {
 	return []*pb.Stream{w.dataStream.Info(), w.dictStream.Info(), w.lengthStream.Info()}
 }
 
-func (w stringDictionaryV2Writer) Reset() {
+func (w *stringDictionaryV2Writer) Reset() {
 	w.reset()
 	w.dataStream.Reset()
 	w.dictStream.Reset()
-- 
2.43.0


From a5f9373f17477e4c9d012f03f7a74e9061e2ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:55 +0000
Subject: [PATCH 31/45] fix: bytes on disk of columns with nulls cover all
 stripes

---
 orc/column/binary.go  | 2 +-
 orc/column/bool.go    | 2 +-
 orc/column/byte.go    | 2 +-
 orc/column/decimal.go | 2 +-
 orc/column/float.go   | 2 +-
 orc/column/int.go     | 2 +-
 orc/column/list.go    | 2 +-
 orc/column/string.go  | 4 ++--
 orc/column/struct.go  | 2 +-
 orc/column/time.go    | 4 ++--
 10 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 9885b08..214804a 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -105,7 +105,7 @@ func (w *binaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
diff --git a/orc/column/bool.go b/orc/column/bool.go
index ff68287..28b5bc5 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -92,7 +92,7 @@ func (w *boolWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 71a9e2f..82ddb2f 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -94,7 +94,7 @@ func (w *byteWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 1c51fbc..2e7e744 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -119,7 +119,7 @@ func (w *decimalV2Writer) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/float.go b/orc/column/float.go
index 06181dd..e3bcdd1 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -261,7 +261,7 @@ func (w *floatWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	return nil
diff --git a/orc/column/int.go b/orc/column/int.go
index 286f1fa..6a65912 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -126,7 +126,7 @@ func (w intWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/list.go b/orc/column/list.go
index a000b5f..bd3525a 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -261,7 +261,7 @@ func (w *listV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
 	return nil
diff --git a/orc/column/string.go b/orc/column/string.go
index f4062c0..db06d52 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -154,7 +154,7 @@ func (w *stringDirectV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
@@ -706,7 +706,7 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.dataStream.Info().GetLength()
 	*w.stats.BytesOnDisk += w.dictStream.Info().GetLength()
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 0e9f5d3..3569c67 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -242,7 +242,7 @@ func (w *structWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	w.flushed = true
 	return nil
diff --git a/orc/column/time.go b/orc/column/time.go
index 753bf98..9e07a15 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -102,7 +102,7 @@ func (w *dateV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
@@ -394,7 +394,7 @@ func (w *timestampWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
-- 
2.43.0


From 93ea3117c1b983ff29e638780835276edee01d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:57 +0000
Subject: [PATCH 32/45] fix: struct rows are counted without a vector and null
 structs have null children

---
 orc/column/struct.go | 14 ++++++--------
 orc/stripe.go        | 20 ++++++++++++++------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/orc/column/struct.go b/orc/column/struct.go
index 3569c67..5cfbcff 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -200,17 +200,15 @@ type structWriter struct {
 }
 
 func (w *structWriter) Write(value api.Value) error {
-	if !w.schema.HasNulls {
-		return nil
-	}
-
-	if err := w.present.Write(!value.Null); err != nil {
-		return err
+	if w.schema.HasNulls {
+		if err := w.present.Write(!value.Null); err != nil {
+			return err
+		}
 	}
 	if !value.Null {
 		(*w.stats.BucketStatistics).Count[0]++
+		*w.stats.NumberOfValues++
 	}
-	*w.stats.NumberOfValues++
 
 	if w.opts.WriteIndex {
 		w.indexInRows++
@@ -231,8 +229,8 @@ func (w *structWriter) Write(value api.Value) error {
 		// no bytes on disk index stats
 		if !value.Null {
 			(*w.indexStats.BucketStatistics).Count[0]++
+			*w.indexStats.NumberOfValues++
 		}
-		*w.indexStats.NumberOfValues++
 	}
 	return nil
 }
diff --git a/orc/stripe.go b/orc/stripe.go
index 228b315..e2cc327 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -37,7 +37,7 @@ type stripeWriter struct {
 func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 	count := uint64(0)
 	for i := 0; i < vec.Len(); i++ {
-		if err := stripe.writeValue(i, vec); err != nil {
+		if err := stripe.writeValue(i, vec, false); err != nil {
 			return err
 		}
 		count++
@@ -58,15 +58,23 @@ func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 	return nil
 }
 
-func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
+// a value is null if its parent is
+func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector, parentNull bool) error {
+	var value api.Value
 	if vec.Vector != nil { // maybe no present struct vector
-		if err := stripe.columnWriters[vec.Id].Write(vec.Vector[index]); err != nil {
-			return err
-		}
+		value = vec.Vector[index]
+	} else if vec.Kind != pb.Type_STRUCT {
+		return errors.Errorf("column %d has no vector", vec.Id)
+	}
+	if parentNull {
+		value = api.Value{Null: true}
+	}
+	if err := stripe.columnWriters[vec.Id].Write(value); err != nil {
+		return err
 	}
 
 	for _, c := range vec.Children {
-		if err := stripe.writeValue(index, c); err != nil {
+		if err := stripe.writeValue(index, c, value.Null); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 7d75451dccd6fb1af06b67cc8d3155209d60f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:26 +0000
Subject: [PATCH 33/45] fix: index statistics keep their type when a column
 writer is reset

---
 orc/column/writer.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/orc/column/writer.go b/orc/column/writer.go
index c6ff6b4..62655c4 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -34,15 +34,37 @@ func (w *writer) reset() {
 	if w.opts.WriteIndex {
 		w.indexInRows = 0
 		w.index.Reset()
-		w.indexStats.Reset()
-		w.indexStats.HasNull = new(bool)
-		w.indexStats.NumberOfValues = new(uint64)
-		w.indexStats.BytesOnDisk = new(uint64)
+		w.indexStats = emptyStats(w.indexStats)
+		*w.indexStats.HasNull = w.schema.HasNulls
 	}
 
 	// stats will not reset, it's for whole writer
 }
 
+// emptyStats returns statistics of the same type as those of s, without any values
+func emptyStats(s *pb.ColumnStatistics) *pb.ColumnStatistics {
+	e := &pb.ColumnStatistics{HasNull: new(bool), NumberOfValues: new(uint64), BytesOnDisk: new(uint64)}
+	switch {
+	case s.IntStatistics != nil:
+		e.IntStatistics = &pb.IntegerStatistics{Minimum: new(int64), Maximum: new(int64), Sum: new(int64)}
+	case s.DoubleStatistics != nil:
+		e.DoubleStatistics = &pb.DoubleStatistics{Minimum: new(float64), Maximum: new(float64), Sum: new(float64)}
+	case s.StringStatistics != nil:
+		e.StringStatistics = &pb.StringStatistics{Minimum: new(string), Maximum: new(string), Sum: new(int64)}
+	case s.BucketStatistics != nil:
+		e.BucketStatistics = &pb.BucketStatistics{Count: make([]uint64, 1)}
+	case s.DecimalStatistics != nil:
+		e.DecimalStatistics = &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}
+	case s.DateStatistics != nil:
+		e.DateStatistics = &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}
+	case s.BinaryStatistics != nil:
+		e.BinaryStatistics = &pb.BinaryStatistics{Sum: new(int64)}
+	case s.TimestampStatistics != nil:
+		e.TimestampStatistics = &pb.TimestampStatistics{Minimum: new(int64), Maximum: new(int64), MinimumUtc: new(int64), MaximumUtc: new(int64)}
+	}
+	return e
+}
+
 func (w writer) GetIndex() *pb.RowIndex {
 	return w.index
 }
-- 
2.43.0


From d8f30e4585c5b4550cb1afcb12128aa3066d4237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:28 +0000
Subject: [PATCH 34/45] fix: float columns can be written with a row index

---
 orc/column/float.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orc/column/float.go b/orc/column/float.go
index e3bcdd1..9651ae8 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -194,11 +194,11 @@ func (w *floatWriter) Write(value api.Value) error {
 		}
 	}
 
+	var v float64
 	if !value.Null {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		var v float64
 		if w.is64 {
 			v = value.V.(float64)
 		} else {
@@ -234,7 +234,6 @@ func (w *floatWriter) Write(value api.Value) error {
 			w.indexInRows = 0
 		}
 		if !value.Null {
-			v := value.V.(float64)
 			*w.indexStats.DoubleStatistics.Sum += v
 			if v < *w.indexStats.DoubleStatistics.Minimum {
 				*w.indexStats.DoubleStatistics.Minimum = v
-- 
2.43.0


From 331b309a20a5ac201e789035c28f286bf1c3db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 35/45] fix: row index statistics of date and boolean columns
 count the values of their rows

---
 orc/column/bool.go | 4 +++-
 orc/column/time.go | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/orc/column/bool.go b/orc/column/bool.go
index 28b5bc5..4823046 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -74,7 +74,9 @@ func (w *boolWriter) Write(value api.Value) error {
 		}
 		// no bytes on disk index stats
 		if !value.Null {
-			(*w.indexStats.BucketStatistics).Count[0]++
+			if value.V.(bool) {
+				(*w.indexStats.BucketStatistics).Count[0]++
+			}
 			*w.indexStats.NumberOfValues++
 		}
 	}
diff --git a/orc/column/time.go b/orc/column/time.go
index 9e07a15..6df18de 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -79,11 +79,11 @@ func (w *dateV2Writer) Write(value api.Value) error {
 			w.indexInRows = 0
 		}
 		if !value.Null {
-			if days < w.stats.DateStatistics.GetMinimum() {
-				*w.stats.DateStatistics.Minimum = days
+			if days < w.indexStats.DateStatistics.GetMinimum() {
+				*w.indexStats.DateStatistics.Minimum = days
 			}
-			if days > w.stats.DateStatistics.GetMaximum() {
-				*w.stats.DateStatistics.Maximum = days
+			if days > w.indexStats.DateStatistics.GetMaximum() {
+				*w.indexStats.DateStatistics.Maximum = days
 			}
 			*w.indexStats.NumberOfValues++
 		}
-- 
2.43.0


From 44ccc526287a84a4a3d0ca080364a030f59d0514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:04 +0000
Subject: [PATCH 36/45] fix: timestamp statistics bound the milliseconds of
 every value

---
 orc/api/vector.go  | 16 +++------
 orc/column/time.go | 89 +++++++++++++++++++++-------------------------
 2 files changed, 45 insertions(+), 60 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index c34d9c6..6ddb6fc 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -148,21 +148,15 @@ func (t Timestamp) Time() time.Time {
 	return time.Unix(base+t.Seconds, int64(t.Nanos)).In(loc)
 }
 
+// milliseconds from 1970, Jan, 1 UTC
 func (t Timestamp) GetMilliSeconds() int64 {
-	loc := t.Loc
-	if loc == nil {
-		loc = time.UTC
-	}
-	var ms int64
-	baseSec := time.Date(2015, time.January, 1, 0, 0, 0, 0, loc).Unix()
-	ms = (t.Seconds - baseSec) * 1_000
-	ms += int64(t.Nanos / 1_000)
-	return ms
+	return t.Time().Unix()*1_000 + int64(t.Nanos/1_000_000)
 }
 
+// milliseconds from 1970, Jan, 1 of the same clock time in UTC
 func (t Timestamp) GetMilliSecondsUtc() int64 {
-	base := time.Date(2015, time.January, 1, 0, 0, 0, 0, time.UTC).Unix()
-	return base + t.Time().Unix() + int64(t.Nanos/1_000)
+	_, offset := t.Time().Zone()
+	return t.GetMilliSeconds() + int64(offset)*1_000
 }
 
 func GetTimestamp(t time.Time) Timestamp {
diff --git a/orc/column/time.go b/orc/column/time.go
index 6df18de..56a92bd 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -297,7 +297,7 @@ func NewTimestampV2Writer(schema *api.TypeDescription, opts *config.WriterOption
 	var index *pb.RowIndex
 	if opts.WriteIndex {
 		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DoubleStatistics: &pb.DoubleStatistics{Maximum: new(float64), Minimum: new(float64), Sum: new(float64)}}
+			TimestampStatistics: &pb.TimestampStatistics{Minimum: new(int64), MinimumUtc: new(int64), Maximum: new(int64), MaximumUtc: new(int64)}}
 		index = &pb.RowIndex{}
 	}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
@@ -319,6 +319,7 @@ func (w *timestampWriter) Write(value api.Value) error {
 		}
 	}
 
+	var ms, msUtc int64
 	if !value.Null {
 		t := value.V.(api.Timestamp)
 		if err := w.data.Write(t.Seconds); err != nil {
@@ -329,59 +330,34 @@ func (w *timestampWriter) Write(value api.Value) error {
 		}
 
 		*w.stats.NumberOfValues++
-		ms := t.GetMilliSeconds()
-		if ms < w.stats.TimestampStatistics.GetMinimum() {
-			*w.stats.TimestampStatistics.Minimum = ms
-		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
-			*w.stats.TimestampStatistics.Maximum = ms
-		}
-		msUtc := t.GetMilliSecondsUtc()
-		if ms < w.stats.TimestampStatistics.GetMinimumUtc() {
-			*w.stats.TimestampStatistics.Minimum = msUtc
-		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
-			*w.stats.TimestampStatistics.MaximumUtc = msUtc
-		}
-
-		if w.opts.WriteIndex {
-			w.indexInRows++
-
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					TimestampStatistics: &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)},
-					NumberOfValues:      new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
-			}
+		ms = t.GetMilliSeconds()
+		msUtc = t.GetMilliSecondsUtc()
+		updateTimestampStats(w.stats.TimestampStatistics, ms, msUtc)
+	}
 
-			if w.indexStats.TimestampStatistics == nil {
-				w.indexStats.TimestampStatistics = &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)}
-			}
+	if w.opts.WriteIndex {
+		w.indexInRows++
 
-			if ms > w.indexStats.TimestampStatistics.GetMaximum() {
-				*w.indexStats.TimestampStatistics.Maximum = ms
-			}
-			if ms < w.indexStats.TimestampStatistics.GetMinimum() {
-				*w.indexStats.TimestampStatistics.Minimum = ms
-			}
-			if msUtc > w.indexStats.TimestampStatistics.GetMaximumUtc() {
-				*w.indexStats.TimestampStatistics.MaximumUtc = msUtc
+		if w.indexInRows >= w.opts.IndexStride {
+			var pp []uint64
+			if w.schema.HasNulls {
+				pp = append(pp, w.present.GetPosition()...)
 			}
-			if msUtc < w.indexStats.TimestampStatistics.GetMinimumUtc() {
-				*w.indexStats.TimestampStatistics.Minimum = msUtc
+			pp = append(pp, w.data.GetPosition()...)
+			pp = append(pp, w.secondary.GetPosition()...)
+			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
+
+			w.indexStats = &pb.ColumnStatistics{
+				TimestampStatistics: &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)},
+				NumberOfValues:      new(uint64), HasNull: new(bool)}
+			if w.schema.HasNulls {
+				*w.indexStats.HasNull = true
 			}
+			w.indexInRows = 0
+		}
 
+		if !value.Null {
+			updateTimestampStats(w.indexStats.TimestampStatistics, ms, msUtc)
 			*w.indexStats.NumberOfValues++
 		}
 	}
@@ -389,6 +365,21 @@ func (w *timestampWriter) Write(value api.Value) error {
 	return nil
 }
 
+func updateTimestampStats(stats *pb.TimestampStatistics, ms int64, msUtc int64) {
+	if ms < stats.GetMinimum() {
+		*stats.Minimum = ms
+	}
+	if ms > stats.GetMaximum() {
+		*stats.Maximum = ms
+	}
+	if msUtc < stats.GetMinimumUtc() {
+		*stats.MinimumUtc = msUtc
+	}
+	if msUtc > stats.GetMaximumUtc() {
+		*stats.MaximumUtc = msUtc
+	}
+}
+
 func (w *timestampWriter) Flush() error {
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
-- 
2.43.0


From a46bf1c98e59dd6f3a8b9c321aed23c075629f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:06 +0000
Subject: [PATCH 37/45] fix: decimal columns can be written with a row index

---
 orc/column/decimal.go | 55 ++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 2e7e744..6e2692a 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -73,40 +73,47 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 		sum += d.Float64()
 		*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", sum)
 		*w.stats.NumberOfValues++
+	}
 
-		if w.opts.WriteIndex {
-			w.indexInRows++
+	if w.opts.WriteIndex {
+		w.indexInRows++
 
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					DecimalStatistics: &pb.DecimalStatistics{Maximum: new(string), Minimum: new(string), Sum: new(string)},
-					NumberOfValues:    new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
+		if w.indexInRows >= w.opts.IndexStride {
+			var pp []uint64
+			if w.schema.HasNulls {
+				pp = append(pp, w.present.GetPosition()...)
+			}
+			pp = append(pp, w.data.GetPosition()...)
+			pp = append(pp, w.secondary.GetPosition()...)
+			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
+
+			w.indexStats = &pb.ColumnStatistics{
+				DecimalStatistics: &pb.DecimalStatistics{Maximum: new(string), Minimum: new(string), Sum: new(string)},
+				NumberOfValues:    new(uint64), HasNull: new(bool)}
+			if w.schema.HasNulls {
+				*w.indexStats.HasNull = true
 			}
+			w.indexInRows = 0
+		}
 
+		if !value.Null {
+			d := value.V.(api.Decimal64)
+			s := d.String()
 			if s < w.indexStats.DecimalStatistics.GetMinimum() {
 				*w.indexStats.DecimalStatistics.Minimum = s
 			}
 			if s > w.indexStats.DecimalStatistics.GetMaximum() {
-				*w.stats.DecimalStatistics.Maximum = s
+				*w.indexStats.DecimalStatistics.Maximum = s
 			}
-			indexSum, err := strconv.ParseFloat(w.indexStats.DecimalStatistics.GetSum(), 64)
-			if err != nil {
-				return errors.WithStack(err)
+			var sum float64
+			var err error
+			if w.indexStats.DecimalStatistics.GetSum() != "" {
+				if sum, err = strconv.ParseFloat(w.indexStats.DecimalStatistics.GetSum(), 64); err != nil {
+					return errors.WithStack(err)
+				}
 			}
-			indexSum += d.Float64()
-			*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", indexSum)
+			sum += d.Float64()
+			*w.indexStats.DecimalStatistics.Sum = fmt.Sprintf("%f", sum)
 			*w.indexStats.NumberOfValues++
 		}
 	}
-- 
2.43.0


From 4c058b23dbe5f92f56002d7b592ffe2207c1f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:28 +0000
Subject: [PATCH 38/45] fix: string statistics bound every value once a long
 string was written

---
 orc/column/string.go | 92 ++++++++++++--------------------------------
 1 file changed, 25 insertions(+), 67 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index db06d52..4bdcae5 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -50,7 +50,6 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 	}
 
-	var dataLength int
 	if !value.Null {
 		s, ok := value.V.(string)
 		if !ok {
@@ -58,7 +57,7 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 		// string encoded in utf-8
 		data := []byte(s)
-		dataLength = len(data)
+		dataLength := len(data)
 		if err := w.data.Write(data); err != nil {
 			return err
 		}
@@ -67,27 +66,7 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 
 		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(dataLength)
-		if w.stats.StringStatistics.Minimum != nil && s < w.stats.StringStatistics.GetMinimum() {
-			*w.stats.StringStatistics.Minimum = s
-		}
-		if w.stats.StringStatistics.Maximum != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.Maximum = s
-		}
-
-		if dataLength >= MaxByteLength {
-			w.stats.StringStatistics.LowerBound = w.stats.StringStatistics.Minimum
-			w.stats.StringStatistics.Minimum = nil
-			w.stats.StringStatistics.UpperBound = w.stats.StringStatistics.Maximum
-			w.stats.StringStatistics.Maximum = nil
-		}
-
-		if w.stats.StringStatistics.LowerBound != nil && s < w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.LowerBound = s
-		}
-		if w.stats.StringStatistics.UpperBound != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.UpperBound = s
-		}
+		updateStringStats(w.stats.StringStatistics, s)
 	}
 
 	if w.opts.WriteIndex {
@@ -112,34 +91,31 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 
 		if !value.Null {
 			*w.indexStats.NumberOfValues++
-			*w.indexStats.StringStatistics.Sum += int64(dataLength)
-			s := value.V.(string)
-
-			if w.indexStats.StringStatistics.Minimum != nil && s < w.indexStats.StringStatistics.GetMinimum() {
-				*w.indexStats.StringStatistics.Minimum = s
-			}
-			if w.indexStats.StringStatistics.Maximum != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.Maximum = s
-			}
-
-			if dataLength >= MaxByteLength {
-				w.indexStats.StringStatistics.LowerBound = w.indexStats.StringStatistics.Minimum
-				w.indexStats.StringStatistics.Minimum = nil
-				w.indexStats.StringStatistics.UpperBound = w.indexStats.StringStatistics.Maximum
-				w.indexStats.StringStatistics.Maximum = nil
-			}
-
-			if w.indexStats.StringStatistics.LowerBound != nil && s < w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.LowerBound = s
-			}
-			if w.indexStats.StringStatistics.UpperBound != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.UpperBound = s
-			}
+			updateStringStats(w.indexStats.StringStatistics, value.V.(string))
 		}
 	}
 	return nil
 }
 
+// minimum and maximum turn into lower and upper bound as soon as there is a value of MaxByteLength or longer
+func updateStringStats(stats *pb.StringStatistics, s string) {
+	*stats.Sum += int64(len(s))
+	if len(s) >= MaxByteLength && stats.LowerBound == nil {
+		stats.LowerBound, stats.Minimum = stats.Minimum, nil
+		stats.UpperBound, stats.Maximum = stats.Maximum, nil
+	}
+	min, max := stats.Minimum, stats.Maximum
+	if stats.LowerBound != nil {
+		min, max = stats.LowerBound, stats.UpperBound
+	}
+	if s < *min {
+		*min = s
+	}
+	if s > *max {
+		*max = s
+	}
+}
+
 func (w *stringDirectV2Writer) Flush() error {
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
@@ -545,7 +521,7 @@ func (r *StringDictionaryV2Reader) Close() {
 
 func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-		Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
+		Maximum: new(string), Minimum: new(string), Sum: new(int64)},
 		NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
 	var present stream.Writer
 	if schema.HasNulls {
@@ -557,7 +533,7 @@ func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.Write
 	if opts.WriteIndex {
 		index = &pb.RowIndex{}
 		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool),
-			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)}}
+			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64)}}
 	}
 	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, false)
@@ -588,9 +564,6 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		if !ok {
 			return errors.New("string column writing, value should be string")
 		}
-		// string encoded in utf-8
-		data := []byte(s)
-		l := len(data)
 
 		vs := w.data[s]
 		vs = append(vs, w.count)
@@ -598,22 +571,7 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		w.data[s] = vs
 
 		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(l)
-		if l >= MaxByteLength {
-			if s < *w.stats.StringStatistics.LowerBound {
-				*w.stats.StringStatistics.LowerBound = s
-			}
-			if s > *w.stats.StringStatistics.UpperBound {
-				*w.stats.StringStatistics.UpperBound = s
-			}
-		} else {
-			if s < *w.stats.StringStatistics.Minimum {
-				*w.stats.StringStatistics.Minimum = s
-			}
-			if s > *w.stats.StringStatistics.Maximum {
-				*w.stats.StringStatistics.Maximum = s
-			}
-		}
+		updateStringStats(w.stats.StringStatistics, s)
 	}
 
 	// todo: index writing
-- 
2.43.0


From 1c67cd2b609d82190797e722039798d51192c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:44 +0000
Subject: [PATCH 39/45] fix: seeking an uncompressed stream beyond its first
 chunk or a stream to its end

---
 orc/stream/reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index c1f8c2c..710be72 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -95,10 +95,18 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 	logger.Tracef("seeking, stream %s of column %d seek to chunk %d, decompressed offset %d",
 		r.info.GetKind().String(), r.info.GetColumn(), chunk, chunkOffset)
 	r.buf.Reset()
+	if r.opts.CompressionKind == pb.CompressionKind_NONE {
+		// the offset may be larger than a chunk
+		chunk += chunkOffset
+		chunkOffset = 0
+	}
 	if _, err := r.f.Seek(int64(r.start+chunk), io.SeekStart); err != nil {
 		return err
 	}
 	r.readLength = chunk
+	if r.readLength >= r.info.GetLength() { // to the end
+		return nil
+	}
 	if err := r.readAChunk(); err != nil {
 		return err
 	}
-- 
2.43.0


From f0097a52b6ada2c2d1832a1e2f34a6df9737094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:46 +0000
Subject: [PATCH 40/45] fix: schema verification looks at every child

---
 orc/api/type.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 2c62436..96c7b56 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -163,7 +163,9 @@ func (td TypeDescription) verifySchema() error {
 			if td.HasNulls && c.HasNulls {
 				return errors.New("struct column has nulls cannot have nulls children")
 			}
-			return c.verifySchema()
+			if err := c.verifySchema(); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 9aaef61b84b447c7d2f9fc6110475ff710ff43c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:31 +0000
Subject: [PATCH 41/45] fix: the end of a stripe or file is reached after its
 last row, not before

---
 orc/reader.go | 4 ++--
 orc/stripe.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 6cf7507..e841677 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -172,7 +172,7 @@ func (br *batchReader) Close() {
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	batch.Clear()
 
-	if br.cursor >= br.numberOfRows-1 {
+	if br.cursor >= br.numberOfRows {
 		return true, nil
 	}
 
@@ -193,7 +193,7 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 		br.stripeIndex--
 	}
 	br.cursor += uint64(batch.Len())
-	return br.cursor >= br.numberOfRows-1, nil
+	return br.cursor >= br.numberOfRows, nil
 }
 
 func (br *batchReader) Seek(rowNumber uint64) error {
diff --git a/orc/stripe.go b/orc/stripe.go
index e2cc327..d709906 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -333,7 +333,7 @@ func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
 
 	stripe.cursor += uint64(vec.Len())
 	logger.Debugf("stripe %d reading cursor %d", stripe.index, stripe.cursor)
-	end = stripe.cursor+1 >= stripe.numberOfRows
+	end = stripe.cursor >= stripe.numberOfRows
 	return
 }
 
-- 
2.43.0


From 182443e056d4c70e62262e72f92a26049392ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:32 +0000
Subject: [PATCH 42/45] fix: seeking to a row moves the batch reader to it

---
 orc/reader.go | 16 +++++++++++++---
 orc/stripe.go | 17 ++++-------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index e841677..ed25668 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -197,17 +197,27 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 }
 
 func (br *batchReader) Seek(rowNumber uint64) error {
-	if rowNumber > br.numberOfRows {
+	if rowNumber >= br.numberOfRows {
 		return errors.New("row number larger than number of rows")
 	}
 	var rows uint64
 	for i := 0; i < len(br.stripes); i++ {
 		if rows+br.stripes[i].numberOfRows > rowNumber {
-			return br.stripes[i].Seek(rowNumber - rows)
+			if err := br.stripes[i].Seek(rowNumber - rows); err != nil {
+				return err
+			}
+			// following stripes may have been read already
+			for _, s := range br.stripes[i+1:] {
+				if err := s.Seek(0); err != nil {
+					return err
+				}
+			}
+			br.stripeIndex = i
+			br.cursor = rowNumber
+			return nil
 		}
 		rows += br.stripes[i].numberOfRows
 	}
-	br.cursor = rowNumber
 	return errors.New("no row found")
 }
 
diff --git a/orc/stripe.go b/orc/stripe.go
index d709906..698eb17 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -375,23 +375,14 @@ func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
 
 // locate rows in this stripe
 func (stripe *stripeReader) Seek(rowNumber uint64) error {
-	var offset uint64
-	var stride uint64
-
-	if rowNumber < uint64(stripe.ropts.IndexStride) {
-		offset = rowNumber
-	} else {
-		stride := rowNumber / uint64(stripe.ropts.IndexStride)
-		offset = rowNumber % (stride * uint64(stripe.ropts.IndexStride))
-	}
-
-	if err := stripe.columnReader.SeekStride(int(stride)); err != nil {
+	// improve: use the row index, if there is one
+	if err := stripe.columnReader.SeekStride(0); err != nil {
 		return err
 	}
-
-	if err := stripe.columnReader.Skip(offset); err != nil {
+	if err := stripe.columnReader.Skip(rowNumber); err != nil {
 		return err
 	}
+	stripe.cursor = rowNumber
 	return nil
 }
 
-- 
2.43.0


From 1603b38e9270c9bb190179a6ad304fdad3221414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:34 +0000
Subject: [PATCH 43/45] fix: no empty stripe is appended to a file whose last
 stripe is complete

---
 orc/writer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index 03eb8b2..6c2118f 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -112,10 +112,12 @@ func (w *writer) GetSchema() *api.TypeDescription {
 }
 
 func (w *writer) Close() error {
-	if err := w.stripe.flushOut(); err != nil {
-		return err
+	if w.stripe.info.GetNumberOfRows() > 0 { // or the last stripe has been flushed out already
+		if err := w.stripe.flushOut(); err != nil {
+			return err
+		}
+		w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 	}
-	w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 
 	if err := w.writeFileTail(); err != nil {
 		return err
-- 
2.43.0


From 977e368e94774928e3e0ef6a6a4e095a613e3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 44/45] fix: file tails larger than the guessed size are read
 in order, malformed ones are errors

---
 orc/reader.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index ed25668..5d24321 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -3,7 +3,6 @@ package orc
 import (
 	"bytes"
 	"compress/flate"
-	"fmt"
 	"io"
 	"os"
 
@@ -270,9 +269,7 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	if size == 0 {
 		// Hive often creates empty files (including ORC) and has an
 		// optimization to create a 0 byte file as an empty ORC file.
-		// todo: empty tail, log
-		fmt.Printf("file size 0")
-		return
+		return nil, errors.New("file size 0")
 	}
 	if size <= int64(len(Magic)) {
 		return nil, errors.New("not a valid orc file")
@@ -292,12 +289,18 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	// read postScript
 	psLen := int64(buf[readSize-1])
 	psOffset := readSize - 1 - psLen
+	if psOffset < 0 {
+		return nil, errors.New("malformed ORC file, postscript larger than file")
+	}
 	ps, err := extractPostScript(buf[psOffset : psOffset+psLen])
 	if err != nil {
 		return nil, err
 	}
 	footerSize := int64(ps.GetFooterLength()) // compressed footer length
 	metaSize := int64(ps.GetMetadataLength())
+	if footerSize < 0 || footerSize > size || metaSize < 0 || psLen+1+footerSize > size-metaSize {
+		return nil, errors.New("malformed ORC file, footer larger than file")
+	}
 
 	// check if extra bytes need to be read
 	extra := Max(0, psLen+1+footerSize+metaSize-readSize)
@@ -311,7 +314,8 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 			return nil, errors.WithStack(err)
 		}
 		// refactor: array allocated
-		buf = append(buf, ebuf...)
+		buf = append(ebuf, buf...)
+		psOffset += extra
 	}
 
 	// read file footer
-- 
2.43.0


From b6037a4da990dc780280d974ada586f66ee9c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:24 +0000
Subject: [PATCH 45/45] fix: seeking beyond a chunk is an error, not a panic

---
 orc/stream/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index 710be72..daba81e 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -110,6 +110,9 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 	if err := r.readAChunk(); err != nil {
 		return err
 	}
+	if chunkOffset > uint64(r.buf.Len()) {
+		return errors.Errorf("stream %s offset %d is beyond the chunk at %d", r.info.String(), chunkOffset, chunk)
+	}
 	r.buf.Next(int(chunkOffset))
 	return nil
 }
-- 
2.43.0

