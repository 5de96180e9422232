From 4f801d6ab70f697e5a1a67f429444d0f6f1660f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 01/51] fix: set the follows flag when encoding request frames

---
 go/internal/frames/request_payload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index f9095c1..a8b4ddc 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -72,6 +72,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	payload := buf
 	metadataLen := uint32(len(f.Metadata))
 	var flags FrameFlag
+	if f.Follows {
+		flags |= FlagFollow
+	}
 	if f.FrameType == FrameTypeRequestChannel && f.Complete {
 		flags |= FlagComplete
 	}
-- 
2.43.0


From 12086f600440f84dd98987836fc686f7bde23fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 02/51] fix: refuse truncated frames instead of panicking while
 decoding them

---
 go/internal/frames/error.go           | 3 +++
 go/internal/frames/payload.go         | 6 ++++++
 go/internal/frames/request_n.go       | 3 +++
 go/internal/frames/request_payload.go | 9 +++++++++
 go/internal/frames/util.go            | 3 +++
 5 files changed, 24 insertions(+)

diff --git a/go/internal/frames/error.go b/go/internal/frames/error.go
index f6966b6..69eedd6 100644
--- a/go/internal/frames/error.go
+++ b/go/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return errIncompleteFrame
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/go/internal/frames/payload.go b/go/internal/frames/payload.go
index 6a6b18b..d880150 100644
--- a/go/internal/frames/payload.go
+++ b/go/internal/frames/payload.go
@@ -32,10 +32,16 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
+		if len(payload) < 3 {
+			return errIncompleteFrame
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if uint32(len(payload)) < mdLength {
+			return errIncompleteFrame
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/go/internal/frames/request_n.go b/go/internal/frames/request_n.go
index 636df9d..ad71f36 100644
--- a/go/internal/frames/request_n.go
+++ b/go/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return errIncompleteFrame
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index a8b4ddc..cfb2fc8 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return errIncompleteFrame
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,10 +50,16 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
+		if len(payload) < 3 {
+			return errIncompleteFrame
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if uint32(len(payload)) < mdLength {
+			return errIncompleteFrame
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/go/internal/frames/util.go b/go/internal/frames/util.go
index d962f97..c2bd202 100644
--- a/go/internal/frames/util.go
+++ b/go/internal/frames/util.go
@@ -2,8 +2,11 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
+var errIncompleteFrame = errors.New("incomplete frame")
+
 var emptyBuffer = []byte{}
 
 func readString(payload []byte) (string, []byte) {
-- 
2.43.0


From 15945c5ef57daad0b57963fa2a04001bd9547488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 03/51] fix: do not repeat the metadata in later fragments of a
 request

---
 go/internal/frames/request_payload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index cfb2fc8..f5750ac 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -170,6 +170,7 @@ func (f *RequestPayload) Fragment(maxFrameSize uint32) []Frame {
 			Complete:  false,
 			InitialN:  f.InitialN,
 		})
+		metadata = nil // all of it went into the first fragment
 	}
 
 	frames = splitPayloads(frames, f.StreamID, true, f.Complete, maxFrameSize, data, metadata)
-- 
2.43.0


From c9166a79d460b97baeb8d5bace4f5deeba2d201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 04/51] fix: give every received frame its own bytes

---
 go/transport/rsocket/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index 7e9be2e..4b60a09 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -34,7 +34,8 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 		}
 		return
 	}
-	raw = scanner.Bytes()[lengthFieldSize:]
+	// The scanner reuses its buffer, and frames keep referring to raw.
+	raw = append([]byte(nil), scanner.Bytes()[lengthFieldSize:]...)
 	if len(raw) < frames.FrameHeaderLen {
 		err = ErrIncompleteHeader
 	}
-- 
2.43.0


From 8a055f16add65631d165442fbc4e2eebf7b23764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 05/51] fix: deliver complete frames that arrive together with
 the end of the stream

---
 go/transport/rsocket/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index 4b60a09..571cd7e 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -43,7 +43,7 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
+	if eof && len(data) == 0 {
 		return
 	}
 	if len(data) < lengthFieldSize {
-- 
2.43.0


From ee965ca245a125e5d5d3133a875f92209bfef11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 06/51] fix: return an error instead of panicking on a frame
 too long for the wire

---
 go/transport/rsocket/tcp_conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/tcp_conn.go b/go/transport/rsocket/tcp_conn.go
index 7d36c89..6888e17 100644
--- a/go/transport/rsocket/tcp_conn.go
+++ b/go/transport/rsocket/tcp_conn.go
@@ -100,7 +100,11 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
+	length, err := u24.NewUint24(size)
+	if err != nil {
+		return fmt.Errorf("write frame failed: %w", err)
+	}
+	_, err = length.WriteTo(p.writer)
 	if err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
-- 
2.43.0


From 4abfbde1c8fc5e121506fbde2904230916a307d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 07/51] fix: forget a stream that is removed from the ends of
 the registry

---
 go/proxy/lookup.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 3dddd04..58eeb58 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -16,6 +16,9 @@ type (
 )
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
@@ -58,9 +61,13 @@ func (l *Lookup) Remove(id uint32) {
 
 	if prevNode != nil {
 		prevNode.next = nodeToDelete.next
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
 		nextNode.prev = nodeToDelete.prev
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From eabc78f443e57537c98938c2f432c7d66895f02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 08/51] fix: never hand out stream ID zero when the server
 counter wraps

---
 go/internal/socket/stream_id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/internal/socket/stream_id.go b/go/internal/socket/stream_id.go
index 974ab23..1949ceb 100644
--- a/go/internal/socket/stream_id.go
+++ b/go/internal/socket/stream_id.go
@@ -21,7 +21,7 @@ func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
 	v := 2 * seed
-	if v != 0 {
+	if v&_maskStreamID != 0 {
 		return uint32(_maskStreamID & v), seed <= _halfSeed
 	}
 	return p.Next()
-- 
2.43.0


From c7d0f936644e4801deb0dfad69c97baa61bed690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 09/51] fix: refuse msgpack lengths that overflow the buffer
 offset

---
 go/msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/data_reader.go b/go/msgpack/data_reader.go
index 4240605..eb2c84b 100644
--- a/go/msgpack/data_reader.go
+++ b/go/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if uint64(d.byteOffset)+uint64(length) > uint64(len(d.buffer)) {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From 2aa03c2b23c01b4e0062ac5a01df230d533b07fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 10/51] fix: size a 255 byte msgpack binary as it is encoded

---
 go/msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 0fc83c0..0fbee96 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -115,7 +115,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From 3b6ace8e97b531e36310dd70b8187cc4a793cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 11/51] fix: write one nil for a nil value

---
 go/msgpack/encoder.go | 1 +
 go/msgpack/sizer.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index 2fd74c0..8414c7a 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -314,6 +314,7 @@ func (e *Encoder) WriteMapSize(length uint32) {
 func (e *Encoder) WriteAny(value any) {
 	if value == nil {
 		e.WriteNil()
+		return
 	}
 	switch v := value.(type) {
 	case nil:
diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 0fbee96..6880f02 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -278,6 +278,7 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 func (s *Sizer) WriteAny(value any) {
 	if value == nil {
 		s.WriteNil()
+		return
 	}
 	switch v := value.(type) {
 	case nil:
-- 
2.43.0


From a1fd87c5cdd85d3437ecfa553014a1fb38c5f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 12/51] fix: encode and decode times held in any values

---
 go/msgpack/decoder.go | 7 +++++++
 go/msgpack/encoder.go | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 85af61f..68d4161 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -390,6 +390,10 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readTimeExt(prefix)
+}
+
+func (d *Decoder) readTimeExt(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -802,6 +806,9 @@ func (d *Decoder) ReadAny() (any, error) {
 		m := make(map[any]any, v)
 		err = d.readMap(m, v)
 		return m, err
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		return d.readTimeExt(prefix)
 	case FormatBin8:
 		binLen, err := d.reader.GetUint8()
 		if err != nil {
diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index 8414c7a..e475578 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -349,6 +349,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -363,6 +365,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
-- 
2.43.0


From 87b3bdf8ead5a1e7b8724708f3850b9a0179e1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 13/51] fix: read msgpack extension lengths as plain integers

---
 go/msgpack/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 68d4161..0d7ce9a 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -893,13 +893,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
-- 
2.43.0


From 0897677a15054a185337cc7bbae8797c8feaf1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 14/51] fix: read signed integers and doubles from every format
 that can hold them

---
 go/msgpack/decoder.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 0d7ce9a..2f94c56 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -157,6 +157,21 @@ func (d *Decoder) ReadInt64() (int64, error) {
 	case FormatInt64:
 		v, err := d.reader.GetInt64()
 		return int64(v), err
+	case FormatUint8:
+		v, err := d.reader.GetUint8()
+		return int64(v), err
+	case FormatUint16:
+		v, err := d.reader.GetUint16()
+		return int64(v), err
+	case FormatUint32:
+		v, err := d.reader.GetUint32()
+		return int64(v), err
+	case FormatUint64:
+		v, err := d.reader.GetUint64()
+		if v > math.MaxInt64 {
+			return 0, ReadError{"interger overflow: value = " + strconv.FormatUint(v, 10) + "; bits = 64"}
+		}
+		return int64(v), err
 	default:
 		return 0, ReadError{"bad prefix for int64"}
 	}
@@ -359,6 +374,9 @@ func (d *Decoder) ReadFloat64() (float64, error) {
 
 	if prefix == FormatFloat64 {
 		return d.reader.GetFloat64()
+	} else if prefix == FormatFloat32 {
+		v, err := d.reader.GetFloat32()
+		return float64(v), err
 	}
 	return 0, ReadError{"bad prefix for float64"}
 }
-- 
2.43.0


From 8dceef8926c35088bc5ee1b4f030e2dba3cfacc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 15/51] fix: skip exactly one msgpack value of every format and
 report truncation

---
 go/msgpack/decoder.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 2f94c56..02343e9 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -627,12 +627,12 @@ func (d *Decoder) Skip() error {
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
+	var objectsToDiscard uint64 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
 		// Noop, will just discard the leadbyte
@@ -640,9 +640,9 @@ func (d *Decoder) getSize() (uint32, error) {
 		strLen := uint32(leadByte & 0x1f)
 		d.reader.Discard(strLen)
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		objectsToDiscard = uint64(leadByte & FormatFourLeastSigBitsInByte)
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
+		objectsToDiscard = 2 * uint64(leadByte&FormatFourLeastSigBitsInByte)
 	} else {
 		switch leadByte {
 		case FormatNil, FormatTrue, FormatFalse:
@@ -686,7 +686,7 @@ func (d *Decoder) getSize() (uint32, error) {
 		case FormatUint64, FormatInt64:
 			d.reader.Discard(8)
 		case FormatFixExt1:
-			d.reader.Discard(1)
+			d.reader.Discard(2)
 		case FormatFixExt2:
 			d.reader.Discard(3)
 		case FormatFixExt4:
@@ -695,36 +695,43 @@ func (d *Decoder) getSize() (uint32, error) {
 			d.reader.Discard(9)
 		case FormatFixExt16:
 			d.reader.Discard(17)
+		case FormatExt8, FormatExt16, FormatExt32:
+			length, err := d.parseExtLen(leadByte)
+			if err != nil {
+				return 0, err
+			}
+			d.reader.Discard(1)
+			d.reader.Discard(length)
 		case FormatArray16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = uint32(v)
+			objectsToDiscard = uint64(v)
 		case FormatArray32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = v
+			objectsToDiscard = uint64(v)
 		case FormatMap16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * uint32(v)
+			objectsToDiscard = 2 * uint64(v)
 		case FormatMap32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * v
+			objectsToDiscard = 2 * uint64(v)
 		default:
 			return 0, ReadError{"bad prefix"}
 		}
 	}
 
-	return objectsToDiscard, nil
+	return objectsToDiscard, d.reader.Err()
 }
 
 func (d *Decoder) ReadAny() (any, error) {
-- 
2.43.0


From 8fcf2f8725b846cc2ee72dad1da18fa0f1f663a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 16/51] fix: do not trust msgpack lengths and map keys from the
 input

---
 go/msgpack/decoder.go | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 02343e9..e2bfc74 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -751,14 +751,12 @@ func (d *Decoder) ReadAny() (any, error) {
 
 	if isFixedArray(prefix) {
 		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
-		return ary, err
+		return d.readArray(aryLen)
 	}
 
 	if isFixedMap(prefix) {
 		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
+		m := make(map[any]any, prealloc(mapLen))
 		err := d.readMap(m, mapLen)
 		return m, err
 	}
@@ -804,23 +802,19 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
+		m := make(map[any]any, prealloc(uint32(v)))
 		err = d.readMap(m, uint32(v))
 		return m, err
 	case FormatMap32:
@@ -828,7 +822,7 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
+		m := make(map[any]any, prealloc(uint32(v)))
 		err = d.readMap(m, v)
 		return m, err
 	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
@@ -857,15 +851,24 @@ func (d *Decoder) ReadAny() (any, error) {
 	return nil, ReadError{"bad value for bool"}
 }
 
-func (d *Decoder) readArray(array []any) error {
-	for i := 0; i < len(array); i++ {
+// prealloc bounds what is allocated on the word of a length prefix alone.
+func prealloc(length uint32) uint32 {
+	if length > 1024 {
+		return 1024
+	}
+	return length
+}
+
+func (d *Decoder) readArray(length uint32) ([]any, error) {
+	array := make([]any, 0, prealloc(length))
+	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return array, err
 		}
-		array[i] = value
+		array = append(array, value)
 	}
-	return nil
+	return array, nil
 }
 
 func (d *Decoder) readMap(m map[any]any, length uint32) error {
@@ -878,6 +881,10 @@ func (d *Decoder) readMap(m map[any]any, length uint32) error {
 		if err != nil {
 			return err
 		}
+		switch key.(type) {
+		case []byte, []any, map[any]any:
+			return ReadError{"bad map key"}
+		}
 		m[key] = value
 	}
 	return nil
-- 
2.43.0


From 54b888ff97252ba0c54b46f78e047bc337e1ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 17/51] fix: refuse msgpack values nested deep enough to
 exhaust the stack

---
 go/msgpack/decoder.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index e2bfc74..9ef695c 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -9,6 +9,7 @@ import (
 
 type Decoder struct {
 	reader DataReader
+	depth  int
 }
 
 func NewDecoder(buffer []byte) Decoder {
@@ -611,7 +612,23 @@ func (d *Decoder) ReadMapSize() (uint32, error) {
 	return 0, ReadError{"bad prefix for map length"}
 }
 
+// maxDepth bounds how deep values may nest.
+const maxDepth = 10000
+
+func (d *Decoder) enter() error {
+	if d.depth >= maxDepth {
+		return ReadError{"values nest too deeply"}
+	}
+	d.depth++
+	return nil
+}
+
 func (d *Decoder) Skip() error {
+	if err := d.enter(); err != nil {
+		return err
+	}
+	defer func() { d.depth-- }()
+
 	numberOfObjectsToDiscard, err := d.getSize()
 	if err != nil {
 		return err
@@ -860,6 +877,11 @@ func prealloc(length uint32) uint32 {
 }
 
 func (d *Decoder) readArray(length uint32) ([]any, error) {
+	if err := d.enter(); err != nil {
+		return nil, err
+	}
+	defer func() { d.depth-- }()
+
 	array := make([]any, 0, prealloc(length))
 	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
@@ -872,6 +894,11 @@ func (d *Decoder) readArray(length uint32) ([]any, error) {
 }
 
 func (d *Decoder) readMap(m map[any]any, length uint32) error {
+	if err := d.enter(); err != nil {
+		return err
+	}
+	defer func() { d.depth-- }()
+
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
 		if err != nil {
-- 
2.43.0


From 883dee54f9a033d8c9d9abbdddba31e542575dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 18/51] fix: report any values that cannot be encoded instead
 of dropping them

---
 go/msgpack/sizer.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 6880f02..fc9d8b2 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -1,12 +1,14 @@
 package msgpack
 
 import (
+	"fmt"
 	"math"
 	"time"
 )
 
 type Sizer struct {
 	length uint32
+	err    error
 }
 
 func NewSizer() Sizer {
@@ -284,7 +286,9 @@ func (s *Sizer) WriteAny(value any) {
 	case nil:
 		s.WriteNil()
 	case Codec:
-		v.Encode(s)
+		if err := v.Encode(s); err != nil && s.err == nil {
+			s.err = err
+		}
 	case int:
 		s.WriteInt64(int64(v))
 	case int8:
@@ -488,9 +492,13 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteAny(k)
 			s.WriteAny(v)
 		}
+	default:
+		if s.err == nil {
+			s.err = fmt.Errorf("msgpack: cannot encode a value of type %T", value)
+		}
 	}
 }
 
 func (s *Sizer) Err() error {
-	return nil
+	return s.err
 }
-- 
2.43.0


From 75c6d64c0785c82f81b514c116f39d9d4daeeb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 19/51] fix: convert absent nillable values to nil

---
 go/msgpack/convert/convert.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/msgpack/convert/convert.go b/go/msgpack/convert/convert.go
index 455fc93..35b6550 100644
--- a/go/msgpack/convert/convert.go
+++ b/go/msgpack/convert/convert.go
@@ -71,6 +71,9 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -80,6 +83,9 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -95,6 +101,9 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
-- 
2.43.0


From ef8da5bfd565e6261d2f9eed09769f943c01053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 20/51] fix: report slice and codec transform errors instead of
 ignoring them

---
 go/transform/transform.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/go/transform/transform.go b/go/transform/transform.go
index a4fa130..485d4ae 100644
--- a/go/transform/transform.go
+++ b/go/transform/transform.go
@@ -306,10 +306,14 @@ func CodecDecode(raw payload.Payload, value msgpack.Codec) error {
 
 func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
 	sizer := msgpack.NewSizer()
-	value.Encode(&sizer)
+	if err := value.Encode(&sizer); err != nil {
+		return nil, err
+	}
 	buf := make([]byte, sizer.Len())
 	encoder := msgpack.NewEncoder(buf)
-	value.Encode(&encoder)
+	if err := value.Encode(&encoder); err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
@@ -375,16 +379,23 @@ func StringEncode[T ~string](val T) (payload.Payload, error) {
 
 func SliceDecode[T any, P MsgPackCodecPtr[T]](raw payload.Payload) ([]T, error) {
 	decoder := msgpack.NewDecoder(raw.Data())
-	size, _ := decoder.ReadArraySize()
-	items := make([]T, size)
-	i := 0
+	size, err := decoder.ReadArraySize()
+	if err != nil {
+		return nil, err
+	}
+	prealloc := size
+	if prealloc > 1024 {
+		prealloc = 1024
+	}
+	items := make([]T, 0, prealloc)
 	for size > 0 {
 		size--
 		var item T
 		p := (P)(&item)
-		p.Decode(&decoder)
-		items[i] = item
-		i++
+		if err := p.Decode(&decoder); err != nil {
+			return nil, err
+		}
+		items = append(items, item)
 	}
 	return items, nil
 }
@@ -394,14 +405,18 @@ func SliceEncode[T any, P MsgPackCodecPtr[T]](items []T) (payload.Payload, error
 	sizer.WriteArraySize(uint32(len(items)))
 	for _, v := range items {
 		p := P(&v)
-		p.Encode(&sizer)
+		if err := p.Encode(&sizer); err != nil {
+			return nil, err
+		}
 	}
 	buf := make([]byte, sizer.Len())
 	encoder := msgpack.NewEncoder(buf)
 	encoder.WriteArraySize(uint32(len(items)))
 	for _, v := range items {
 		p := P(&v)
-		p.Encode(&encoder)
+		if err := p.Encode(&encoder); err != nil {
+			return nil, err
+		}
 	}
 	return payload.New(buf), nil
 }
-- 
2.43.0


From 1e27e77dd79403080fdc9ec7cf4d00829fdbc1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 21/51] fix: refuse truncated operation tables instead of
 panicking

---
 go/operations/operatons.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/go/operations/operatons.go b/go/operations/operatons.go
index bca2fb2..6624de2 100644
--- a/go/operations/operatons.go
+++ b/go/operations/operatons.go
@@ -62,12 +62,19 @@ func (d Direction) String() string {
 // Magic is the 4 byte preamble (literally "\0wrs") of the binary format
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
+var ErrIncompleteTable = errors.New("incomplete operation table")
 
 func FromBytes(buf []byte) (Table, error) {
+	if len(buf) < 4 {
+		return nil, ErrInvalidMagicNumber
+	}
 	if !bytes.Equal(buf[0:4], Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
 	buf = buf[4:]
+	if len(buf) < 6 {
+		return nil, ErrIncompleteTable
+	}
 
 	// Read version.
 	version := binary.BigEndian.Uint16(buf)
@@ -76,18 +83,30 @@ func FromBytes(buf []byte) (Table, error) {
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
+	if uint64(numOps)*12 > uint64(len(buf)-4) {
+		return nil, ErrIncompleteTable
+	}
 	operations := make(Table, numOps)
 	buf = buf[4:]
 	for i := 0; i < int(numOps); i++ {
+		if len(buf) < 8 {
+			return nil, ErrIncompleteTable
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
 		nsLen := binary.BigEndian.Uint16(buf[6:8])
 		buf = buf[8:]
+		if len(buf) < int(nsLen)+2 {
+			return nil, ErrIncompleteTable
+		}
 		ns := string(buf[:nsLen])
 		buf = buf[nsLen:]
 		opLen := binary.BigEndian.Uint16(buf[0:2])
 		buf = buf[2:]
+		if len(buf) < int(opLen)+2 {
+			return nil, ErrIncompleteTable
+		}
 		op := string(buf[:opLen])
 		buf = buf[opLen:]
 		operations[i] = Operation{
@@ -98,7 +117,10 @@ func FromBytes(buf []byte) (Table, error) {
 			Operation: op,
 		}
 		reservedLen := binary.BigEndian.Uint16(buf)
-		buf = buf[2+reservedLen:] // Reserved
+		if len(buf) < 2+int(reservedLen) {
+			return nil, ErrIncompleteTable
+		}
+		buf = buf[2+int(reservedLen):] // Reserved
 	}
 
 	return operations, nil
-- 
2.43.0


From 0e0707211daf071575d40bbe03d4e2407f28cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 22/51] fix: give the next and complete flags of port data
 their own bits

---
 go/invoke/portio.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index 0f787ce..f40eed4 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -71,8 +71,8 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
-	FlagComplete
+	FlagNext     Flags = 1
+	FlagComplete Flags = 2
 )
 
 // Check returns true if mask exists.
-- 
2.43.0


From be5050ae6c22b2d37a366e907e4185ca7da54f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 23/51] fix: refuse truncated port data instead of panicking

---
 go/invoke/portio.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index f40eed4..65930a9 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -2,9 +2,12 @@ package invoke
 
 import (
 	"encoding/binary"
+	"errors"
 	"strings"
 )
 
+var errIncompletePortIO = errors.New("incomplete port data")
+
 type PortIO struct {
 	Port     string
 	Data     []byte
@@ -13,12 +16,18 @@ type PortIO struct {
 }
 
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return errIncompletePortIO
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
 	portLength := binary.BigEndian.Uint16(data)
 	data = data[2:]
+	if len(data) < int(portLength) {
+		return errIncompletePortIO
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
-- 
2.43.0


From 71d75184b9a639d8b82de39ffa5da70935a05ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 24/51] fix: do not turn instance handles from outside into
 pointers

---
 go/invoke/instances.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/go/invoke/instances.go b/go/invoke/instances.go
index a32508e..52b189a 100644
--- a/go/invoke/instances.go
+++ b/go/invoke/instances.go
@@ -14,20 +14,19 @@ var ErrNoInstance = errors.New("no instance is active for this pointer")
 
 type LiveInstances[T any] struct {
 	mu        sync.RWMutex
-	instances map[*Ptr[T]]struct{}
+	instances map[uint64]*Ptr[T] // by handle; a handle from outside may be no pointer
 }
 
 func NewLiveInstances[T any]() *LiveInstances[T] {
 	return &LiveInstances[T]{
-		instances: make(map[*Ptr[T]]struct{}),
+		instances: make(map[uint64]*Ptr[T]),
 	}
 }
 
 func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 	t.mu.RLock()
 	defer t.mu.RUnlock()
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
-	_, ok = t.instances[ptr]
+	ptr, ok := t.instances[id]
 	if ok {
 		inst = ptr.Ptr
 	}
@@ -39,17 +38,17 @@ func (t *LiveInstances[T]) Put(inst T) uint64 {
 	handle := uint64(uintptr(unsafe.Pointer(ptr)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.instances[ptr] = struct{}{}
+	t.instances[handle] = ptr
 	return handle
 }
 
 func (t *LiveInstances[T]) Remove(id uint64) (inst T, ok bool) {
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	if _, ok = t.instances[ptr]; ok {
+	ptr, ok := t.instances[id]
+	if ok {
 		inst = ptr.Ptr
-		delete(t.instances, ptr)
+		delete(t.instances, id)
 	}
 	return
 }
-- 
2.43.0


From 76ccbeb7cfb5dc2261f4c8fffa88fcbe576df3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 25/51] fix: refuse a UUID with other characters in place of
 its braces

---
 go/types/uuid/uuid.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/types/uuid/uuid.go b/go/types/uuid/uuid.go
index 61a3725..1d18343 100644
--- a/go/types/uuid/uuid.go
+++ b/go/types/uuid/uuid.go
@@ -76,6 +76,9 @@ func Parse(s string) (UUID, error) {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
+		if s[0] != '{' || s[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		s = s[1:]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
@@ -122,6 +125,9 @@ func ParseBytes(b []byte) (UUID, error) {
 		}
 		b = b[9:]
 	case 36 + 2: // {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
+		if b[0] != '{' || b[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		b = b[1:]
 	case 32: // xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
 		var ok bool
-- 
2.43.0


From 29f6e9d56ff9d2543ba00407b16e1ff1d431a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 26/51] fix: report values that a codec could not write

---
 go/msgpack/codec.go       |  6 ++++++
 go/transform/transform.go | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/go/msgpack/codec.go b/go/msgpack/codec.go
index 8e39093..29d8efe 100644
--- a/go/msgpack/codec.go
+++ b/go/msgpack/codec.go
@@ -13,11 +13,17 @@ func ToBytes(codec Codec) ([]byte, error) {
 	if err := codec.Encode(&sizer); err != nil {
 		return nil, err
 	}
+	if err := sizer.Err(); err != nil {
+		return nil, err
+	}
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	if err := codec.Encode(&encoder); err != nil {
 		return nil, err
 	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return buffer, nil
 }
 
diff --git a/go/transform/transform.go b/go/transform/transform.go
index 485d4ae..a6df69c 100644
--- a/go/transform/transform.go
+++ b/go/transform/transform.go
@@ -309,11 +309,17 @@ func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
 	if err := value.Encode(&sizer); err != nil {
 		return nil, err
 	}
+	if err := sizer.Err(); err != nil {
+		return nil, err
+	}
 	buf := make([]byte, sizer.Len())
 	encoder := msgpack.NewEncoder(buf)
 	if err := value.Encode(&encoder); err != nil {
 		return nil, err
 	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
@@ -409,6 +415,9 @@ func SliceEncode[T any, P MsgPackCodecPtr[T]](items []T) (payload.Payload, error
 			return nil, err
 		}
 	}
+	if err := sizer.Err(); err != nil {
+		return nil, err
+	}
 	buf := make([]byte, sizer.Len())
 	encoder := msgpack.NewEncoder(buf)
 	encoder.WriteArraySize(uint32(len(items)))
@@ -418,6 +427,9 @@ func SliceEncode[T any, P MsgPackCodecPtr[T]](items []T) (payload.Payload, error
 			return nil, err
 		}
 	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
-- 
2.43.0


From af41133f8bb95c1378d6d7298d26474f4ab1d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 27/51] fix: read an empty custom section at the end of a
 module and check section sizes

---
 go/transport/wasmrs/customsections/customsections.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/transport/wasmrs/customsections/customsections.go b/go/transport/wasmrs/customsections/customsections.go
index 480e332..37a639f 100644
--- a/go/transport/wasmrs/customsections/customsections.go
+++ b/go/transport/wasmrs/customsections/customsections.go
@@ -106,6 +106,9 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 		return "", 0, fmt.Errorf("failed to read %s size: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
 	}
 
+	if int64(size) > int64(r.Len()) {
+		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), io.ErrUnexpectedEOF)
+	}
 	buf := make([]byte, size)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
@@ -122,8 +125,11 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 //
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
+	if limit > uint64(r.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	buf := make([]byte, limit)
-	_, err = r.Read(buf)
+	_, err = io.ReadFull(r, buf)
 
 	result = &wasm.CustomSection{
 		Name: name,
-- 
2.43.0


From 8691fd8809b0a319c1703b4fdc36c7de3b3c7c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 28/51] fix: settle a mono once and tell every listener when
 goroutines race

---
 go/rx/mono/mono.go             | 67 +++++++++++++++++++++++++++-------
 go/rx/mono/mono_host.go        |  9 +++++
 go/rx/mono/mono_webassembly.go |  5 +++
 go/rx/mono/processor.go        | 39 ++++++++++++++------
 4 files changed, 94 insertions(+), 26 deletions(-)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 002c985..cee9c71 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
@@ -102,6 +108,7 @@ type mono[T any] struct {
 	source     Source[T]
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
+	mu         mutex // guards the fields above and the outcome of subscriber
 }
 
 func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
@@ -112,7 +119,9 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 		doOnSubscribe: sub.OnRequest,
 		doFinally:     sub.Finally,
 	}
+	m.mu.Lock()
 	m.subscriber = &wrapper
+	m.mu.Unlock()
 	m.source(&wrapper)
 	return m
 }
@@ -126,16 +135,21 @@ func (m *mono[T]) Notify(fn rx.FnFinally) {
 	// 	m.subscriber = &wrapper
 	// 	m.source(&wrapper)
 	// }
+	m.mu.Lock()
 	if m.subscriber != nil && m.subscriber.closed {
-		fn(m.subscriber.signal)
+		signal := m.subscriber.signal
+		m.mu.Unlock()
+		fn(signal)
 		return
 	}
-
 	m.callbacks = append(m.callbacks, fn)
+	m.mu.Unlock()
 }
 
 func (m *mono[T]) Get() (ret T, err error) {
-	if !m.subscriber.closed {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if m.subscriber == nil || !m.subscriber.closed {
 		panic("mono: Get called before completion")
 	}
 	return m.subscriber.value, m.subscriber.err
@@ -155,11 +169,9 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Success(value T) {
-	if s.closed {
+	if !s.close(rx.SignalComplete, value, nil) {
 		return
 	}
-	s.value = value
-	s.closed = true
 	if s.doOnSuccess != nil {
 		s.doOnSuccess(value)
 	}
@@ -167,32 +179,48 @@ func (s *subscriber[T]) Success(value T) {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	var none T
+	if !s.close(rx.SignalError, none, err) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
 	s.finally(rx.SignalError)
 }
 
-func (s *subscriber[T]) finally(signal rx.SignalType) {
+// close records the outcome and reports whether it is the first one.
+func (s *subscriber[T]) close(signal rx.SignalType, value T, err error) bool {
+	s.m.mu.Lock()
+	defer s.m.mu.Unlock()
+	if s.closed {
+		return false
+	}
+	s.closed = true
 	s.signal = signal
+	s.value = value
+	s.err = err
+	return true
+}
+
+func (s *subscriber[T]) finally(signal rx.SignalType) {
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.m.callbacks {
+	s.m.mu.Lock()
+	callbacks := s.m.callbacks
+	s.m.callbacks = nil
+	s.m.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	var none T
+	if !s.close(rx.SignalCancel, none, nil) {
 		return
 	}
-	s.closed = true
 	s.finally(rx.SignalCancel)
 }
 
@@ -209,10 +237,21 @@ type mapper[S any, D any] struct {
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
+	failed := false
+	finally := sub.Finally
+	if finally != nil {
+		finally = func(signal rx.SignalType) {
+			if failed {
+				signal = rx.SignalError
+			}
+			sub.Finally(signal)
+		}
+	}
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
 			converted, err := b.tx(value)
 			if err != nil {
+				failed = true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
@@ -224,7 +263,7 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally:   finally,
 	})
 	return b
 }
diff --git a/go/rx/mono/mono_host.go b/go/rx/mono/mono_host.go
index 72e0c0d..35ee4ba 100644
--- a/go/rx/mono/mono_host.go
+++ b/go/rx/mono/mono_host.go
@@ -3,14 +3,23 @@
 
 package mono
 
+import "sync"
+
+type mutex struct {
+	sync.Mutex
+}
+
 type Blockable[T any] interface {
 	Block() (T, error)
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
+	s.mu.Lock()
 	if s.subscriber != nil && s.subscriber.closed {
+		defer s.mu.Unlock()
 		return s.subscriber.value, s.subscriber.err
 	}
+	s.mu.Unlock()
 
 	done := make(chan struct{})
 	go func() {
diff --git a/go/rx/mono/mono_webassembly.go b/go/rx/mono/mono_webassembly.go
index 5c489e0..4fb994c 100644
--- a/go/rx/mono/mono_webassembly.go
+++ b/go/rx/mono/mono_webassembly.go
@@ -5,3 +5,8 @@ package mono
 
 type Blockable[T any] interface {
 }
+
+type mutex struct{}
+
+func (mutex) Lock()   {}
+func (mutex) Unlock() {}
diff --git a/go/rx/mono/processor.go b/go/rx/mono/processor.go
index a7bb35d..78a2c75 100644
--- a/go/rx/mono/processor.go
+++ b/go/rx/mono/processor.go
@@ -7,7 +7,9 @@ type Processor[T any] interface {
 
 type ProcessorImpl[T any] struct {
 	Mono[T]
+	mu      mutex // guards the fields below
 	sink    Sink[T]
+	settled bool
 	success *T
 	err     error
 }
@@ -15,11 +17,14 @@ type ProcessorImpl[T any] struct {
 func NewProcessor[T any]() *ProcessorImpl[T] {
 	p := &ProcessorImpl[T]{}
 	p.Mono = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.success != nil {
-			sink.Success(*p.success)
-		} else if p.err != nil {
-			sink.Error(p.err)
+		settled, success, err := p.settled, p.success, p.err
+		p.mu.Unlock()
+		if success != nil {
+			sink.Success(*success)
+		} else if settled {
+			sink.Error(err)
 		}
 	})
 
@@ -27,17 +32,27 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 }
 
 func (p *ProcessorImpl[T]) Success(value T) {
-	if p.sink != nil {
-		p.sink.Success(value)
-	} else {
-		p.success = &value
+	if sink := p.settle(&value, nil); sink != nil {
+		sink.Success(value)
 	}
 }
 
 func (p *ProcessorImpl[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
-	} else {
-		p.err = err
+	if sink := p.settle(nil, err); sink != nil {
+		sink.Error(err)
 	}
 }
+
+// settle keeps the first outcome for those who subscribe later
+// and returns the sink of the current subscriber, if any.
+func (p *ProcessorImpl[T]) settle(success *T, err error) Sink[T] {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if p.settled {
+		return nil
+	}
+	p.settled = true
+	p.success = success
+	p.err = err
+	return p.sink
+}
-- 
2.43.0


From f92f13e1c50927fa3fa9751f4b63424429962c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:33 +0000
Subject: [PATCH 29/51] fix: end a flux once and keep its demand right when
 goroutines race

---
 go/rx/flux/flux.go             | 120 ++++++++++++++++++++++++---------
 go/rx/flux/flux_host.go        |  12 +++-
 go/rx/flux/flux_webassembly.go |   3 +
 go/rx/flux/processor.go        |  38 +++++++----
 go/rx/flux/response.go         |  11 ++-
 go/rx/flux/slice.go            |   1 +
 6 files changed, 131 insertions(+), 54 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 864f7e5..f9df80d 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -1,6 +1,8 @@
 package flux
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -47,6 +49,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -56,14 +61,21 @@ func (e errorFlow[T]) Notify(fn rx.FnFinally) {
 	fn(rx.SignalError)
 }
 
-func (e errorFlow[T]) Block(_ Subscribe[T]) error {
+func (e errorFlow[T]) Block(sub Subscribe[T]) error {
+	e.Subscribe(sub)
 	return e.err
 }
 
 func (e errorFlow[T]) Subscription() rx.Subscription {
-	return nil
+	return ended{}
 }
 
+// ended is the subscription of a flux that has nothing to deliver.
+type ended struct{}
+
+func (ended) Request(int) {}
+func (ended) Cancel()     {}
+
 func Create[T any](source Source[T]) Flux[T] {
 	return &flux[T]{
 		source: source,
@@ -74,6 +86,7 @@ type flux[T any] struct {
 	source     Source[T]
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
+	mu         mutex // guards the fields above and the state of subscriber
 }
 
 func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
@@ -86,24 +99,32 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 		f:            f,
 		noRequest:    sub.NoRequest,
 	}
+	f.mu.Lock()
 	f.subscriber = &s
+	f.mu.Unlock()
 	f.source(&s)
 	s.handleOnSubscribe()
 	return f
 }
 
 func (f *flux[T]) Subscription() rx.Subscription {
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	return f.subscriber
 }
 
 func (f *flux[T]) Async() {}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
+	f.mu.Lock()
 	if f.subscriber != nil && f.subscriber.closed {
-		fn(f.subscriber.signal)
+		signal := f.subscriber.signal
+		f.mu.Unlock()
+		fn(signal)
 		return
 	}
 	f.callbacks = append(f.callbacks, fn)
+	f.mu.Unlock()
 }
 
 type subscriber[T any] struct {
@@ -125,24 +146,29 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Next(value T) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.n--
+	s.f.mu.Unlock()
 	if s.doOnNext != nil {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 {
+	s.f.mu.Lock()
+	exhausted := s.n == 0 && !s.closed
+	s.f.mu.Unlock()
+	if exhausted {
 		s.handleOnSubscribe()
 	}
 }
 
 func (s *subscriber[T]) Complete() {
-	if s.closed {
+	if !s.close(rx.SignalComplete, nil) {
 		return
 	}
-	s.closed = true
 	if s.doOnComplete != nil {
 		s.doOnComplete()
 	}
@@ -150,34 +176,52 @@ func (s *subscriber[T]) Complete() {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	if !s.close(rx.SignalError, err) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
 	s.finally(rx.SignalError)
 }
 
-func (s *subscriber[T]) finally(signal rx.SignalType) {
+// close records how the subscription ended and reports whether this was the first end.
+func (s *subscriber[T]) close(signal rx.SignalType, err error) bool {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
+	if s.closed {
+		return false
+	}
+	s.closed = true
 	s.signal = signal
+	s.err = err
+	return true
+}
+
+func (s *subscriber[T]) finally(signal rx.SignalType) {
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.f.callbacks {
+	s.f.mu.Lock()
+	callbacks := s.f.callbacks
+	s.f.callbacks = nil
+	s.f.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.sub = sub
-	if s.n > 0 {
-		s.doRequest(s.n)
+	n := s.n
+	s.f.mu.Unlock()
+	if n > 0 {
+		s.doRequest(n)
 	}
 }
 
@@ -193,24 +237,26 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	s.f.mu.Lock()
 	s.n += n
-	if s.sub.Request != nil {
+	ready := s.sub.Request != nil && !s.closed
+	s.f.mu.Unlock()
+	if ready {
 		s.doRequest(n)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	s.closed = true
-	if s.sub.Cancel != nil {
-		s.sub.Cancel()
+	if !s.close(rx.SignalCancel, nil) {
+		return
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
+	s.f.mu.Lock()
+	cancel := s.sub.Cancel
+	s.f.mu.Unlock()
+	if cancel != nil {
+		cancel()
 	}
-}
-
-func (s *subscriber[T]) Close() {
-	s.closed = true
+	s.finally(rx.SignalCancel)
 }
 
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
@@ -225,22 +271,30 @@ type mapper[S, D any] struct {
 	tx rx.Transform[S, D]
 }
 
-type closable[T any] interface {
-	Close()
-}
-
 func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	var failed atomic.Bool
+	finally := sub.Finally
+	if finally != nil {
+		finally = func(signal rx.SignalType) {
+			if failed.Load() {
+				signal = rx.SignalError
+			}
+			sub.Finally(signal)
+		}
+	}
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
+			if failed.Load() {
+				return
+			}
 			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
-				}
+				failed.Store(true)
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
-				if sub.Finally != nil {
-					sub.Finally(rx.SignalError)
+				// Ends the subscription, which calls Finally.
+				if upstream := m.f.Subscription(); upstream != nil {
+					upstream.Cancel()
 				}
 			} else if sub.OnNext != nil {
 				sub.OnNext(converted)
@@ -249,7 +303,7 @@ func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 		OnComplete: sub.OnComplete,
 		OnError:    sub.OnError,
 		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
+		Finally:    finally,
 		NoRequest:  sub.NoRequest,
 	})
 	return m
diff --git a/go/rx/flux/flux_host.go b/go/rx/flux/flux_host.go
index bdf98f5..f4cbd24 100644
--- a/go/rx/flux/flux_host.go
+++ b/go/rx/flux/flux_host.go
@@ -21,14 +21,22 @@ func (s *subscriber[T]) doRequest(n int) {
 	go func(n int) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		s.sub.Request(n)
+		s.f.mu.Lock()
+		request, closed := s.sub.Request, s.closed
+		s.f.mu.Unlock()
+		if !closed {
+			request(n)
+		}
 	}(n)
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
+	f.mu.Lock()
+	if f.subscriber != nil && f.subscriber.closed {
+		defer f.mu.Unlock()
 		return f.subscriber.err
 	}
+	f.mu.Unlock()
 
 	return Block(Flux[T](f), sub)
 }
diff --git a/go/rx/flux/flux_webassembly.go b/go/rx/flux/flux_webassembly.go
index 08ca2f7..086c6a4 100644
--- a/go/rx/flux/flux_webassembly.go
+++ b/go/rx/flux/flux_webassembly.go
@@ -8,6 +8,9 @@ type Blockable[T any] interface {
 
 type mutex struct{}
 
+func (mutex) Lock()   {}
+func (mutex) Unlock() {}
+
 func (s *subscriber[T]) doRequest(n int) {
 	s.sub.Request(n)
 }
diff --git a/go/rx/flux/processor.go b/go/rx/flux/processor.go
index 10770a6..816520a 100644
--- a/go/rx/flux/processor.go
+++ b/go/rx/flux/processor.go
@@ -7,6 +7,7 @@ type Processor[T any] interface {
 
 type processor[T any] struct {
 	Flux[T]
+	mu   mutex // guards the fields below
 	sink Sink[T]
 	sub  *OnSubscribe
 }
@@ -14,38 +15,51 @@ type processor[T any] struct {
 func NewProcessor[T any]() Processor[T] {
 	p := &processor[T]{}
 	p.Flux = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.sub != nil {
-			sink.OnSubscribe(*p.sub)
-			p.sub = nil
+		sub := p.sub
+		p.sub = nil
+		p.mu.Unlock()
+		if sub != nil {
+			sink.OnSubscribe(*sub)
 		}
 	})
 
 	return p
 }
 
+func (p *processor[T]) current() Sink[T] {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	return p.sink
+}
+
 func (p *processor[T]) Next(value T) {
-	if p.sink != nil {
-		p.sink.Next(value)
+	if sink := p.current(); sink != nil {
+		sink.Next(value)
 	}
 }
 
 func (p *processor[T]) Complete() {
-	if p.sink != nil {
-		p.sink.Complete()
+	if sink := p.current(); sink != nil {
+		sink.Complete()
 	}
 }
 
 func (p *processor[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
+	if sink := p.current(); sink != nil {
+		sink.Error(err)
 	}
 }
 
 func (p *processor[T]) OnSubscribe(sub OnSubscribe) {
-	if p.sink != nil {
-		p.sink.OnSubscribe(sub)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
 		p.sub = &sub
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.OnSubscribe(sub)
+	}
 }
diff --git a/go/rx/flux/response.go b/go/rx/flux/response.go
index 739f81f..185b2b3 100644
--- a/go/rx/flux/response.go
+++ b/go/rx/flux/response.go
@@ -2,14 +2,11 @@ package flux
 
 func SliceResponse[T any](sink Sink[T], slice []T) func(n int) {
 	return func(n int) {
-		num := len(slice)
-		if n < num {
-			num = n
+		for ; n > 0 && len(slice) > 0; n-- {
+			next := slice[0]
+			slice = slice[1:]
+			sink.Next(next)
 		}
-		for i := 0; i < num; i++ {
-			sink.Next(slice[i])
-		}
-		slice = slice[num:]
 		if len(slice) == 0 {
 			sink.Complete()
 		}
diff --git a/go/rx/flux/slice.go b/go/rx/flux/slice.go
index d3b2881..db885e4 100644
--- a/go/rx/flux/slice.go
+++ b/go/rx/flux/slice.go
@@ -2,6 +2,7 @@ package flux
 
 func FromSlice[T any](values []T) Flux[T] {
 	return Create(func(sink Sink[T]) {
+		values := values // every subscriber gets all of them
 		sink.OnSubscribe(OnSubscribe{
 			Request: func(n int) {
 				for i := n; i > 0 && len(values) != 0; i-- {
-- 
2.43.0


From 66762293e2cc2086ad53f4d29e00f06ab7034860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 30/51] fix: run every step of a flow once when its tasks are
 already done or end together

---
 go/rx/flow/flow.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/go/rx/flow/flow.go b/go/rx/flow/flow.go
index 874f617..a523083 100644
--- a/go/rx/flow/flow.go
+++ b/go/rx/flow/flow.go
@@ -1,6 +1,8 @@
 package flow
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/await"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -13,9 +15,7 @@ type (
 		monoSink mono.Sink[T]
 		fluxSink flux.Sink[T]
 
-		ended      bool
-		completed  int
-		awaitables []await.Awaitable
+		ended bool
 	}
 
 	StepFn func() (await.Group, error)
@@ -89,8 +89,9 @@ func (f *Flow[T]) next() {
 		return
 	}
 
-	f.completed = 0
+	// Take the step first, the tasks it waits for may already be done.
 	step := f.steps[0]
+	f.steps = f.steps[1:]
 	awaitables, err := step()
 	if err != nil {
 		if f.monoSink != nil {
@@ -105,18 +106,13 @@ func (f *Flow[T]) next() {
 		return
 	}
 
-	f.awaitables = awaitables
-	for _, a := range f.awaitables {
+	pending := int32(len(awaitables))
+	for _, a := range awaitables {
 		a.Async() // Ensure task is running.
-		a.Notify(f.check)
-	}
-
-	f.steps = f.steps[1:]
-}
-
-func (f *Flow[T]) check(rx.SignalType) {
-	f.completed++
-	if f.completed >= len(f.awaitables) {
-		f.next()
+		a.Notify(func(rx.SignalType) {
+			if atomic.AddInt32(&pending, -1) == 0 {
+				f.next()
+			}
+		})
 	}
 }
-- 
2.43.0


From 6e02b167dbff6726d89c24c34a0b063ffd65daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 31/51] fix: start a local mono or flux that is awaited

---
 go/rx/flux/flux.go | 11 ++++++++++-
 go/rx/mono/mono.go |  8 ++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index f9df80d..7e03a90 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -113,7 +113,16 @@ func (f *flux[T]) Subscription() rx.Subscription {
 	return f.subscriber
 }
 
-func (f *flux[T]) Async() {}
+func (f *flux[T]) Async() {
+	// If treated like an awaitable and not subscribed,
+	// then subscribe without callbacks.
+	f.mu.Lock()
+	subscribed := f.subscriber != nil
+	f.mu.Unlock()
+	if !subscribed {
+		f.Subscribe(Subscribe[T]{})
+	}
+}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
 	f.mu.Lock()
diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index cee9c71..6769631 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -127,6 +127,14 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 }
 
 func (m *mono[T]) Async() {
+	// If treated like an awaitable and not subscribed,
+	// then subscribe without callbacks.
+	m.mu.Lock()
+	subscribed := m.subscriber != nil
+	m.mu.Unlock()
+	if !subscribed {
+		m.Subscribe(Subscribe[T]{})
+	}
 }
 
 func (m *mono[T]) Notify(fn rx.FnFinally) {
-- 
2.43.0


From ee561cecf83c47712e5df10c001072b21a6544d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 32/51] fix: tell every waiting subscriber of a mono processor

---
 go/rx/mono/processor.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/go/rx/mono/processor.go b/go/rx/mono/processor.go
index 78a2c75..8b934bd 100644
--- a/go/rx/mono/processor.go
+++ b/go/rx/mono/processor.go
@@ -7,8 +7,8 @@ type Processor[T any] interface {
 
 type ProcessorImpl[T any] struct {
 	Mono[T]
-	mu      mutex // guards the fields below
-	sink    Sink[T]
+	mu      mutex     // guards the fields below
+	sinks   []Sink[T] // of those who wait for the outcome
 	settled bool
 	success *T
 	err     error
@@ -18,8 +18,10 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 	p := &ProcessorImpl[T]{}
 	p.Mono = Create(func(sink Sink[T]) {
 		p.mu.Lock()
-		p.sink = sink
 		settled, success, err := p.settled, p.success, p.err
+		if !settled {
+			p.sinks = append(p.sinks, sink)
+		}
 		p.mu.Unlock()
 		if success != nil {
 			sink.Success(*success)
@@ -32,20 +34,20 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 }
 
 func (p *ProcessorImpl[T]) Success(value T) {
-	if sink := p.settle(&value, nil); sink != nil {
+	for _, sink := range p.settle(&value, nil) {
 		sink.Success(value)
 	}
 }
 
 func (p *ProcessorImpl[T]) Error(err error) {
-	if sink := p.settle(nil, err); sink != nil {
+	for _, sink := range p.settle(nil, err) {
 		sink.Error(err)
 	}
 }
 
 // settle keeps the first outcome for those who subscribe later
-// and returns the sink of the current subscriber, if any.
-func (p *ProcessorImpl[T]) settle(success *T, err error) Sink[T] {
+// and returns the sinks of the current subscribers.
+func (p *ProcessorImpl[T]) settle(success *T, err error) []Sink[T] {
 	p.mu.Lock()
 	defer p.mu.Unlock()
 	if p.settled {
@@ -54,5 +56,20 @@ func (p *ProcessorImpl[T]) settle(success *T, err error) Sink[T] {
 	p.settled = true
 	p.success = success
 	p.err = err
-	return p.sink
+	sinks := p.sinks
+	p.sinks = nil
+	return sinks
+}
+
+func (p *ProcessorImpl[T]) Get() (value T, err error) {
+	p.mu.Lock()
+	if !p.settled {
+		p.mu.Unlock()
+		return p.Mono.Get()
+	}
+	defer p.mu.Unlock()
+	if p.success != nil {
+		value = *p.success
+	}
+	return value, p.err
 }
-- 
2.43.0


From e968e04a5284278cb4f2ef3cb3ffa701ec4676f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 33/51] fix: keep the streams of requests in step with frames
 that arrive at any time

Streams being answered are registered before their handler runs, so frames
that follow the request at once are not lost; cancelling one stops the answer
instead of calling a nil sink, frames for streams that have ended are ignored
instead of closing the connection, and both sides remove a stream when it has
ended in both directions. Fire and forget requests are never answered and
leave no stream behind.
---
 go/handler/caller.go                 |   6 +-
 go/handler/handler.go                | 111 ++++++-----------
 go/proxy/flux.go                     | 162 ++++++++++++++++++-------
 go/proxy/flux_host.go                |  14 +++
 go/proxy/mono.go                     |  36 ++++--
 go/proxy/responder.go                | 173 +++++++++++++++++++++++++++
 go/proxy/stream.go                   |   5 +
 go/transport/wasmrs/guest/caller.go  |   6 +-
 go/transport/wasmrs/guest/guest.go   | 105 ++++++----------
 go/transport/wasmrs/host/caller.go   |   6 +-
 go/transport/wasmrs/host/instance.go | 119 +++++++-----------
 11 files changed, 461 insertions(+), 282 deletions(-)
 create mode 100644 go/proxy/flux_host.go
 create mode 100644 go/proxy/responder.go

diff --git a/go/handler/caller.go b/go/handler/caller.go
index ffe3524..091a586 100644
--- a/go/handler/caller.go
+++ b/go/handler/caller.go
@@ -38,7 +38,7 @@ func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.M
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -59,7 +59,7 @@ func (i *Handler) RequestStream(ctx context.Context, p payload.Payload) flux.Flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -69,7 +69,7 @@ func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) getNextStreamID() uint32 {
diff --git a/go/handler/handler.go b/go/handler/handler.go
index d0ed8ea..eeaa0aa 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -4,14 +4,12 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
@@ -112,10 +110,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
+			// The stream can have ended here while the frame was underway.
 			return
 		}
 	}
@@ -146,7 +141,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			s := proxy.NewResponder(i.ctx, streamID, false, i.removeStream)
+			i.registerStream(s) // Need to register for RequestN frames
+			go i.handleRequestStream(s, v.Data, v.Metadata, v.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -154,16 +151,20 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			s := proxy.NewResponder(i.ctx, streamID, true, i.removeStream)
+			i.registerStream(s) // Need to register for RequestN frames
+			go i.handleRequestChannel(s, v.Data, v.Metadata, v.InitialN)
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
-		str.OnComplete()
-		i.removeStream(streamID)
+		if s, ok := str.(proxy.Canceller); ok {
+			s.OnCancel()
+		}
 
 	case *frames.Payload:
 		// pl, ok := i.fragmentedPayloads[p.StreamID]
@@ -217,13 +218,11 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 		if v.Complete {
 			str.OnComplete()
-			i.removeStream(streamID)
 		}
 
 	case *frames.Error:
 		str.OnError(errors.New(v.Data))
 		str.OnComplete()
-		i.removeStream(streamID)
 	}
 
 	return nil
@@ -245,8 +244,8 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false, i.removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
 			i.sendFrame(&frames.Payload{
@@ -267,35 +266,33 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 }
 
 func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !i.checkMetadata(streamID, metadata) {
+	if len(metadata) < 8 { // There is nobody to tell.
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetFireAndForgetHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
 		return
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false, i.removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	ctx, streamID := s.Context(), s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
+		i.removeStream(streamID)
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -304,8 +301,6 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -318,12 +313,14 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 			})
 		},
 		OnComplete: func() {
+			s.OutputDone(nil)
 			i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
+			s.OutputDone(err)
 			i.sendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -331,19 +328,21 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.DoRequest(int(initialN))
+	s.SetSubscription(f.Subscription())
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	ctx, streamID := s.Context(), s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
+		i.removeStream(streamID)
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -352,10 +351,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				i.sendFrame(&frames.RequestN{
@@ -364,11 +360,13 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 				})
 			},
 			Cancel: func() {
+				s.InputDone()
 				i.sendFrame(&frames.Cancel{
 					StreamID: streamID,
 				})
 			},
 		})
+		s.SetSink(sink)
 	})
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -381,12 +379,14 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 			})
 		},
 		OnComplete: func() {
+			s.OutputDone(nil)
 			i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
+			s.OutputDone(err)
 			i.sendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -394,9 +394,8 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.DoRequest(int(initialN))
+	s.SetSubscription(f.Subscription())
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -675,41 +674,3 @@ func (i *Handler) checkMetadata(streamID uint32, metadata []byte) bool {
 type DoRequest interface {
 	DoRequest(n int)
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 6f0f588..590c507 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,7 @@ import (
 	"github.com/nanobus/iota/go/rx/flux"
 )
 
-func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream)) flux.Flux[payload.Payload] {
+func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream), remove func(uint32)) flux.Flux[payload.Payload] {
 	p := flux.NewProcessor[payload.Payload]()
 	ss := streamFlux{
 		ctx:       ctx,
@@ -18,6 +19,8 @@ func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[paylo
 		in:        in,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
+		inDone:    in == nil,
 		first:     true,
 	}
 	p.OnSubscribe(flux.OnSubscribe{
@@ -31,13 +34,20 @@ type streamFlux struct {
 	ctx context.Context
 	flux.Processor[payload.Payload]
 
+	request   frames.RequestPayload
+	in        flux.Flux[payload.Payload]
+	inDemand  demand
+	sendFrame func(frames.Frame) error
+	register  func(Stream)
+	remove    func(uint32)
+
+	mu         sync.Mutex // guards the fields below
 	subscribed bool
-	request    frames.RequestPayload
-	in         flux.Flux[payload.Payload]
-	sendFrame  func(frames.Frame) error
-	register   func(Stream)
 	first      bool
 	complete   bool
+	inDone     bool
+	queue      []frames.Frame // not yet sent
+	sending    bool
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -53,18 +63,41 @@ func (s *streamFlux) OnNext(p payload.Payload) {
 }
 
 func (s *streamFlux) OnComplete() {
+	s.end(true, false)
 	s.Processor.Complete()
-	s.complete = true
 }
 
 func (s *streamFlux) OnError(err error) {
+	s.end(true, true)
+	s.inDemand.cancel()
 	s.Processor.Error(err)
 }
 
+// OnCancel stops what is sent to the responder.
+func (s *streamFlux) OnCancel() {
+	s.end(false, true)
+	s.inDemand.cancel()
+}
+
+// end notes which directions have ended, and removes the stream after both.
+func (s *streamFlux) end(complete, inDone bool) {
+	s.mu.Lock()
+	s.complete = s.complete || complete
+	s.inDone = s.inDone || inDone
+	ended := s.complete && s.inDone
+	s.mu.Unlock()
+	if ended {
+		s.remove(s.request.StreamID)
+	}
+}
+
 func (s *streamFlux) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.mu.Unlock()
+	if !subscribed {
 		s.Subscribe(flux.Subscribe[payload.Payload]{})
 	}
 }
@@ -74,61 +107,104 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
+	s.mu.Lock()
 	if s.complete {
+		s.mu.Unlock()
 		return
 	}
-	if s.first {
+	first := s.first
+	if first {
 		s.request.InitialN = uint32(n)
 		s.first = false
-		s.sendFrame(&s.request)
-
-		if s.in != nil {
-			s.in.Subscribe(flux.Subscribe[payload.Payload]{
-				OnNext: func(p payload.Payload) {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Metadata: p.Metadata(),
-						Data:     p.Data(),
-						Next:     true,
-					})
-				},
-				OnComplete: func() {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Complete: true,
-					})
-				},
-				OnError: func(err error) {
-					s.sendFrame(&frames.Error{
-						StreamID: s.request.StreamID,
-						Data:     err.Error(),
-					})
-				},
-				NoRequest: true,
-			})
-		}
+		s.queue = append(s.queue, &s.request)
 	} else {
-		s.sendFrame(&frames.RequestN{
+		s.queue = append(s.queue, &frames.RequestN{
 			StreamID: s.request.StreamID,
 			N:        uint32(n),
 		})
 	}
+	s.drain()
+
+	s.mu.Lock()
+	subscribe := first && !s.inDone
+	s.mu.Unlock()
+	if subscribe {
+		s.in.Subscribe(flux.Subscribe[payload.Payload]{
+			OnNext: func(p payload.Payload) {
+				s.sendFrame(&frames.Payload{
+					StreamID: s.request.StreamID,
+					Metadata: p.Metadata(),
+					Data:     p.Data(),
+					Next:     true,
+				})
+			},
+			OnComplete: func() {
+				s.sendFrame(&frames.Payload{
+					StreamID: s.request.StreamID,
+					Complete: true,
+				})
+				s.end(false, true)
+			},
+			OnError: func(err error) {
+				s.sendFrame(&frames.Error{
+					StreamID: s.request.StreamID,
+					Data:     err.Error(),
+				})
+				s.end(false, true)
+			},
+			NoRequest: true,
+		})
+		s.inDemand.attach(s.in.Subscription())
+	}
 }
 
 func (s *streamFlux) Cancel() {
-	s.sendFrame(&frames.Cancel{
-		StreamID: s.request.StreamID,
-	})
+	s.mu.Lock()
+	if !s.first {
+		s.queue = append(s.queue, &frames.Cancel{
+			StreamID: s.request.StreamID,
+		})
+	}
+	s.drain()
+	s.end(true, true)
+	s.inDemand.cancel()
+}
+
+// drain is called with mu locked and unlocks it. It sends the queued frames
+// in order, whichever goroutine queued them.
+func (s *streamFlux) drain() {
+	for len(s.queue) > 0 && !s.sending {
+		f := s.queue[0]
+		s.queue = s.queue[1:]
+		s.sending = true
+		s.mu.Unlock()
+		err := s.sendFrame(f)
+		if err != nil {
+			s.OnError(err)
+		}
+		s.mu.Lock()
+		s.sending = false
+	}
+	s.mu.Unlock()
 }
 
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	s.inDemand.request(n)
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
-	s.subscribed = true
-	s.register(s)
+	s.start()
 	s.Processor.Subscribe(sub)
 	return s
 }
+
+// start registers the stream when it is first subscribed.
+func (s *streamFlux) start() {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.subscribed = true
+	s.mu.Unlock()
+	if !subscribed {
+		s.register(s)
+	}
+}
diff --git a/go/proxy/flux_host.go b/go/proxy/flux_host.go
new file mode 100644
index 0000000..94a7006
--- /dev/null
+++ b/go/proxy/flux_host.go
@@ -0,0 +1,14 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi
+
+package proxy
+
+import (
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+func (s *streamFlux) Block(sub flux.Subscribe[payload.Payload]) error {
+	s.start()
+	return s.Processor.Block(sub)
+}
diff --git a/go/proxy/mono.go b/go/proxy/mono.go
index 793a2a6..b83b988 100644
--- a/go/proxy/mono.go
+++ b/go/proxy/mono.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,7 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
-func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
+func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream), remove func(uint32)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
 		ctx:       ctx,
@@ -17,6 +18,7 @@ func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(fra
 		request:   request,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 	}
 	return &ss
 }
@@ -25,10 +27,13 @@ type streamMono struct {
 	ctx context.Context
 	mono.Processor[payload.Payload]
 
+	request   frames.RequestPayload
+	sendFrame func(frames.Frame) error
+	register  func(Stream)
+	remove    func(uint32)
+
+	mu         sync.Mutex // guards the field below
 	subscribed bool
-	request    frames.RequestPayload
-	sendFrame  func(frames.Frame) error
-	register   func(Stream)
 }
 
 func (s *streamMono) Context() context.Context {
@@ -40,21 +45,27 @@ func (s *streamMono) StreamID() uint32 {
 }
 
 func (s *streamMono) OnNext(p payload.Payload) {
+	s.remove(s.request.StreamID)
 	s.Processor.Success(p)
 }
 
 func (s *streamMono) OnComplete() {
-	// Not implemented
+	// Without a payload before it, the response is empty.
+	s.OnNext(payload.New(nil))
 }
 
 func (s *streamMono) OnError(err error) {
+	s.remove(s.request.StreamID)
 	s.Processor.Error(err)
 }
 
 func (s *streamMono) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.mu.Unlock()
+	if !subscribed {
 		s.Subscribe(mono.Subscribe[payload.Payload]{})
 	}
 }
@@ -64,9 +75,18 @@ func (s *streamMono) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[payload.Payload] {
+	s.mu.Lock()
+	subscribed := s.subscribed
 	s.subscribed = true
-	s.register(s)
+	s.mu.Unlock()
+	if !subscribed {
+		s.register(s)
+	}
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
+	if !subscribed {
+		if err := s.sendFrame(&s.request); err != nil {
+			s.OnError(err)
+		}
+	}
 	return s
 }
diff --git a/go/proxy/responder.go b/go/proxy/responder.go
new file mode 100644
index 0000000..3b01de8
--- /dev/null
+++ b/go/proxy/responder.go
@@ -0,0 +1,173 @@
+package proxy
+
+import (
+	"context"
+	"sync"
+
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+// Responder is the stream of a request that is being answered. It takes in the
+// frames of the requester, which can arrive before the handler has returned,
+// and is removed when both directions have ended.
+type Responder struct {
+	ctx      context.Context
+	streamID uint32
+	remove   func(uint32)
+	out      demand
+
+	mu       sync.Mutex // guards the fields below
+	sink     flux.Sink[payload.Payload]
+	queue    []func(flux.Sink[payload.Payload]) // input until there is a sink
+	draining bool
+	inDone   bool
+	outDone  bool
+}
+
+var _ = (Stream)((*Responder)(nil))
+
+// NewResponder creates the stream of a request; input tells if the requester
+// sends more than the request.
+func NewResponder(ctx context.Context, streamID uint32, input bool, remove func(uint32)) *Responder {
+	return &Responder{
+		ctx:      ctx,
+		streamID: streamID,
+		remove:   remove,
+		inDone:   !input,
+	}
+}
+
+func (r *Responder) Context() context.Context {
+	return r.ctx
+}
+
+func (r *Responder) StreamID() uint32 {
+	return r.streamID
+}
+
+// SetSink starts handing over the input to sink.
+func (r *Responder) SetSink(sink flux.Sink[payload.Payload]) {
+	r.mu.Lock()
+	r.sink = sink
+	r.drain()
+}
+
+// SetSubscription lets the requester control the answer.
+func (r *Responder) SetSubscription(sub rx.Subscription) {
+	r.out.attach(sub)
+}
+
+// DoRequest passes demand of the requester on to the answer.
+func (r *Responder) DoRequest(n int) {
+	r.out.request(n)
+}
+
+// OnCancel stops the answer and completes the input.
+func (r *Responder) OnCancel() {
+	r.out.cancel()
+	r.OnComplete()
+	r.OutputDone(nil)
+}
+
+func (r *Responder) OnNext(p payload.Payload) {
+	r.feed(false, func(sink flux.Sink[payload.Payload]) { sink.Next(p) })
+}
+
+func (r *Responder) OnComplete() {
+	r.feed(true, func(sink flux.Sink[payload.Payload]) { sink.Complete() })
+}
+
+func (r *Responder) OnError(err error) {
+	r.feed(true, func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
+}
+
+// InputDone notes that the handler takes no more input.
+func (r *Responder) InputDone() {
+	r.mu.Lock()
+	r.inDone = true
+	r.queue = nil
+	r.drain()
+}
+
+// OutputDone notes that the answer has ended; a failure also ends the input.
+func (r *Responder) OutputDone(err error) {
+	if err != nil {
+		r.OnError(err)
+	}
+	r.mu.Lock()
+	r.outDone = true
+	r.drain()
+}
+
+func (r *Responder) feed(last bool, signal func(flux.Sink[payload.Payload])) {
+	r.mu.Lock()
+	if !r.inDone {
+		r.inDone = last
+		r.queue = append(r.queue, signal)
+	}
+	r.drain()
+}
+
+// drain is called with mu locked and unlocks it. It hands over the input in
+// order and removes the stream when it has ended.
+func (r *Responder) drain() {
+	for r.sink != nil && len(r.queue) > 0 && !r.draining {
+		sink, signal := r.sink, r.queue[0]
+		r.queue = r.queue[1:]
+		r.draining = true
+		r.mu.Unlock()
+		signal(sink)
+		r.mu.Lock()
+		r.draining = false
+	}
+	ended := r.inDone && r.outDone
+	r.mu.Unlock()
+	if ended {
+		r.remove(r.streamID)
+	}
+}
+
+// demand passes the requests and the cancellation of a peer on to a
+// subscription that may not exist yet.
+type demand struct {
+	mu        sync.Mutex
+	sub       rx.Subscription
+	n         int
+	cancelled bool
+}
+
+func (d *demand) attach(sub rx.Subscription) {
+	d.mu.Lock()
+	d.sub = sub
+	n, cancelled := d.n, d.cancelled
+	d.mu.Unlock()
+	if cancelled {
+		sub.Cancel()
+	} else if n > 0 {
+		sub.Request(n)
+	}
+}
+
+func (d *demand) request(n int) {
+	d.mu.Lock()
+	sub := d.sub
+	if sub == nil {
+		d.n += n
+	}
+	d.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+func (d *demand) cancel() {
+	d.mu.Lock()
+	d.cancelled = true
+	sub := d.sub
+	d.mu.Unlock()
+	if sub != nil {
+		sub.Cancel()
+	}
+}
diff --git a/go/proxy/stream.go b/go/proxy/stream.go
index 941be46..19db1b6 100644
--- a/go/proxy/stream.go
+++ b/go/proxy/stream.go
@@ -14,6 +14,11 @@ type Stream interface {
 	OnError(err error)
 }
 
+// Canceller is a stream whose peer can cancel what it is sent.
+type Canceller interface {
+	OnCancel()
+}
+
 type streamKey struct{}
 
 func FromContext(ctx context.Context) (Stream, bool) {
diff --git a/go/transport/wasmrs/guest/caller.go b/go/transport/wasmrs/guest/caller.go
index aae5224..c8ebb10 100644
--- a/go/transport/wasmrs/guest/caller.go
+++ b/go/transport/wasmrs/guest/caller.go
@@ -43,7 +43,7 @@ func (i *Caller) RequestResponse(ctx context.Context, p payload.Payload) mono.Mo
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, sendFrame, registerStream)
+	}, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -64,7 +64,7 @@ func (i *Caller) RequestStream(ctx context.Context, p payload.Payload) flux.Flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, sendFrame, registerStream)
+	}, nil, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -75,7 +75,7 @@ func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, sendFrame, registerStream)
+	}, in, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) getNextStreamID() uint32 {
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 92fffb0..ab94492 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -13,7 +13,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
@@ -184,7 +183,9 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+			s := proxy.NewResponder(ctx, rs.StreamID, false, removeStream)
+			registerStream(s) // Need to register for RequestN frames
+			handleRequestStream(s, rs.Data, rs.Metadata, rs.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			var rc frames.RequestPayload
@@ -200,7 +201,9 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+			s := proxy.NewResponder(ctx, rc.StreamID, true, removeStream)
+			registerStream(s) // Need to register for RequestN frames
+			handleRequestChannel(s, rc.Data, rc.Metadata, rc.InitialN)
 
 		case frames.FrameTypeRequestN:
 			var rn frames.RequestN
@@ -212,12 +215,14 @@ func GuestSend(endPos uint32) {
 				return
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
-			str.OnComplete()
-			removeStream(header.StreamID())
+			if s, ok := str.(proxy.Canceller); ok {
+				s.OnCancel()
+			}
 
 		case frames.FrameTypePayload:
 			var p frames.Payload
@@ -279,7 +284,6 @@ func GuestSend(endPos uint32) {
 
 			if p.Complete {
 				str.OnComplete()
-				removeStream(header.StreamID())
 			}
 
 		case frames.FrameTypeError:
@@ -289,7 +293,6 @@ func GuestSend(endPos uint32) {
 			}
 			str.OnError(errors.New(p.Data))
 			str.OnComplete()
-			removeStream(header.StreamID())
 		}
 	}
 }
@@ -310,8 +313,8 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false, removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
 			sendFrame(&frames.Payload{
@@ -332,35 +335,33 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 }
 
 func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !checkMetadata(streamID, metadata) {
+	if len(metadata) < 8 { // There is nobody to tell.
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetFireAndForgetHandler(operationID)
 	if handler == nil {
-		sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
 		return
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false, removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	ctx, streamID := s.Context(), s.StreamID()
 	if !checkMetadata(streamID, metadata) {
+		removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
+		removeStream(streamID)
 		sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -369,8 +370,6 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -383,12 +382,14 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 			})
 		},
 		OnComplete: func() {
+			s.OutputDone(nil)
 			sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
+			s.OutputDone(err)
 			sendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -396,19 +397,21 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.DoRequest(int(initialN))
+	s.SetSubscription(f.Subscription())
 }
 
-func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	ctx, streamID := s.Context(), s.StreamID()
 	if !checkMetadata(streamID, metadata) {
+		removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
+		removeStream(streamID)
 		sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -417,10 +420,7 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				sendFrame(&frames.RequestN{
@@ -429,11 +429,13 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 				})
 			},
 			Cancel: func() {
+				s.InputDone()
 				sendFrame(&frames.Cancel{
 					StreamID: streamID,
 				})
 			},
 		})
+		s.SetSink(sink)
 	})
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -446,12 +448,14 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 			})
 		},
 		OnComplete: func() {
+			s.OutputDone(nil)
 			sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
+			s.OutputDone(err)
 			sendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -459,9 +463,8 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.DoRequest(int(initialN))
+	s.SetSubscription(f.Subscription())
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
@@ -572,44 +575,6 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
-
 //go:inline
 func bytesToPointer(s []byte) uintptr {
 	//nolint
diff --git a/go/transport/wasmrs/host/caller.go b/go/transport/wasmrs/host/caller.go
index 08062d7..63a7238 100644
--- a/go/transport/wasmrs/host/caller.go
+++ b/go/transport/wasmrs/host/caller.go
@@ -36,7 +36,7 @@ func (i *Instance) RequestResponse(ctx context.Context, p payload.Payload) mono.
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -57,7 +57,7 @@ func (i *Instance) RequestStream(ctx context.Context, p payload.Payload) flux.Fl
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -67,7 +67,7 @@ func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) getNextStreamID() uint32 {
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 04dfbbb..e0d2df8 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -16,7 +16,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
@@ -318,7 +317,9 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		s := proxy.NewResponder(i.parentContext(ctx, rs.Metadata), rs.StreamID, false, i.removeStream)
+		i.registerStream(s) // Need to register for RequestN frames
+		go i.handleRequestStream(s, rs.Data, rs.Metadata, rs.InitialN)
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
@@ -334,7 +335,9 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		s := proxy.NewResponder(i.parentContext(ctx, rc.Metadata), rc.StreamID, true, i.removeStream)
+		i.registerStream(s) // Need to register for RequestN frames
+		go i.handleRequestChannel(s, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
@@ -346,12 +349,14 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		if s, ok := str.(proxy.Canceller); ok {
+			s.OnCancel()
+		}
 
 	case frames.FrameTypePayload:
 		var p frames.Payload
@@ -410,7 +415,6 @@ func (i *Instance) recvOne(data []byte) {
 
 		if p.Complete {
 			str.OnComplete()
-			i.removeStream(header.StreamID())
 		}
 
 	case frames.FrameTypeError:
@@ -420,7 +424,6 @@ func (i *Instance) recvOne(data []byte) {
 		}
 		str.OnError(errors.New(p.Data))
 		str.OnComplete()
-		i.removeStream(header.StreamID())
 	}
 }
 
@@ -465,7 +468,7 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 }
 
 func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !i.checkMetadata(streamID, metadata) {
+	if len(metadata) < 8 { // There is nobody to tell.
 		return
 	}
 
@@ -478,30 +481,23 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	}
 	handler := i.getFireAndForgetHandler(operationID)
 	if handler == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
 		return
 	}
 	p := payload.New(data, metadata)
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	ctx, streamID := s.Context(), s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handlerRS := i.getRequestStreamHandler(operationID)
 	if handlerRS == nil {
+		i.removeStream(streamID)
 		i.SendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -510,8 +506,6 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	f := handlerRS(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
@@ -523,12 +517,14 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 			})
 		},
 		OnComplete: func() {
+			s.OutputDone(nil)
 			i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
+			s.OutputDone(err)
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -536,25 +532,21 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.DoRequest(int(initialN))
+	s.SetSubscription(f.Subscription())
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	ctx, streamID := s.Context(), s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handlerRC := i.getRequestChannelHandler(operationID)
 	if handlerRC == nil {
+		i.removeStream(streamID)
 		i.SendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -563,10 +555,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				i.SendFrame(&frames.RequestN{
@@ -575,11 +564,13 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 				})
 			},
 			Cancel: func() {
+				s.InputDone()
 				i.SendFrame(&frames.Cancel{
 					StreamID: streamID,
 				})
 			},
 		})
+		s.SetSink(sink)
 	})
 	f := handlerRC(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -592,12 +583,14 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 			})
 		},
 		OnComplete: func() {
+			s.OutputDone(nil)
 			i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
+			s.OutputDone(err)
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -605,9 +598,8 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.DoRequest(int(initialN))
+	s.SetSubscription(f.Subscription())
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
@@ -666,6 +658,17 @@ func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelH
 	return i.importedRC[index]
 }
 
+// parentContext returns the context of the request that the one with this
+// metadata was made for, if there is one.
+func (i *Instance) parentContext(ctx context.Context, metadata []byte) context.Context {
+	if len(metadata) >= 8 {
+		if stream, ok := i.getStream(binary.BigEndian.Uint32(metadata[4:])); ok {
+			return stream.Context()
+		}
+	}
+	return ctx
+}
+
 func (i *Instance) checkMetadata(streamID uint32, metadata []byte) bool {
 	if len(metadata) < 8 { // 48 before... but why?
 		i.SendFrame(&frames.Error{
@@ -695,41 +698,3 @@ func (i *Instance) checkFollows(requestFrame *frames.RequestPayload) bool {
 type DoRequest interface {
 	DoRequest(n int)
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
-- 
2.43.0


From 6e88f08c8d2f81ba6754ebd137811f1bb21edde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:28 +0000
Subject: [PATCH 34/51] fix: write frames whole, and end everything that
 belongs to a connection with it

Goroutines that send at once no longer mix the bytes of their frames. Start
ends when its context is cancelled or a frame is refused, even while it waits
to read; requests that are pending when the connection ends fail instead of
waiting for ever. A server closed before it listens does not start, and it
forgets connections that have ended.
---
 go/handler/handler.go                 | 12 +++++++++
 go/proxy/lookup.go                    | 13 ++++++++++
 go/transport/rsocket/tcp_transport.go | 36 ++++++++++++++++++++++++---
 go/transport/rsocket/transport.go     | 23 +++++++++++++++++
 4 files changed, 80 insertions(+), 4 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index eeaa0aa..c14912b 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -70,7 +70,19 @@ func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
 	i.sendFrame = sendFrame
 }
 
+// ErrClosed is the error of requests that were pending when the
+// connection ended.
+var ErrClosed = errors.New("connection closed")
+
+// Close ends all streams. It is called when the connection has ended.
 func (i *Handler) Close() error {
+	streams := append(i.guestStreams.Clear(), i.hostStreams.Clear()...)
+	for _, s := range streams {
+		s.OnError(ErrClosed)
+		if c, ok := s.(proxy.Canceller); ok {
+			c.OnCancel()
+		}
+	}
 	return nil
 }
 
diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 58eeb58..73f17fc 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -71,6 +71,19 @@ func (l *Lookup) Remove(id uint32) {
 	}
 }
 
+// Clear removes all streams and returns them.
+func (l *Lookup) Clear() (streams []Stream) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
+	for n := l.head; n != nil; n = n.next {
+		streams = append(streams, n.stream)
+	}
+	l.head = nil
+	l.tail = nil
+	return streams
+}
+
 func (l *Lookup) find(id uint32) *node {
 	for n := l.head; n != nil; n = n.next {
 		if n.stream.StreamID() == id {
diff --git a/go/transport/rsocket/tcp_transport.go b/go/transport/rsocket/tcp_transport.go
index 20b9935..45da43f 100644
--- a/go/transport/rsocket/tcp_transport.go
+++ b/go/transport/rsocket/tcp_transport.go
@@ -29,6 +29,12 @@ func (t *tcpServerTransport) Accept(acceptor ServerTransportAcceptor) {
 	t.acceptor = acceptor
 }
 
+func (t *tcpServerTransport) getAcceptor() ServerTransportAcceptor {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	return t.acceptor
+}
+
 func (t *tcpServerTransport) Close() (err error) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
@@ -52,12 +58,17 @@ func (t *tcpServerTransport) Close() (err error) {
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
 	if err != nil {
 		notifier <- false
 		err = fmt.Errorf("listen tcp server failed: %w", err)
 		return
 	}
+	if !t.putListener(l) {
+		_ = l.Close()
+		notifier <- false
+		return errTransportClosed
+	}
 
 	defer func() {
 		_ = t.Close()
@@ -79,7 +90,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
@@ -97,17 +108,34 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
-			go t.acceptor(ctx, h, func(tp *Transport) {
+			go func() {
+				_ = tp.Start(ctx)
+				t.removeTransport(tp)
+			}()
+			go t.getAcceptor()(ctx, h, func(tp *Transport) {
 				t.removeTransport(tp)
 			})
 		} else {
+			_ = tp.Close()
 			_ = t.Close()
 		}
 	}
 	return
 }
 
+// putListener keeps the listener for Close, unless that has been called.
+func (t *tcpServerTransport) putListener(l net.Listener) bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	select {
+	case <-t.done:
+		return false
+	default:
+		t.l = l
+		return true
+	}
+}
+
 func (t *tcpServerTransport) removeTransport(tp *Transport) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
diff --git a/go/transport/rsocket/transport.go b/go/transport/rsocket/transport.go
index e043506..0d17abe 100644
--- a/go/transport/rsocket/transport.go
+++ b/go/transport/rsocket/transport.go
@@ -52,6 +52,7 @@ type Transport struct {
 	conn        Conn
 	maxLifetime time.Duration
 	once        sync.Once
+	writeMu     sync.Mutex // keeps the bytes of frames together
 	handler     DuplexHandler
 }
 
@@ -104,6 +105,8 @@ func (p *Transport) Send(frame frames.Frame, flush bool) (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
 	err = p.conn.Write(frame)
 	if err != nil {
 		return
@@ -121,6 +124,8 @@ func (p *Transport) Flush() (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
 	err = p.conn.Flush()
 	return
 }
@@ -163,6 +168,8 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 			case errCh <- err:
 			default:
 			}
+			// Wake up Start, which waits for the next frame.
+			_ = p.Close()
 		}
 		if bf.Load() == 0 {
 			runtime.Gosched()
@@ -172,8 +179,21 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 
 // Start start transport.
 func (p *Transport) Start(ctx context.Context) error {
+	stop := make(chan struct{})
 	defer func() {
+		close(stop)
 		_ = p.Close()
+		if c, ok := p.handler.(io.Closer); ok {
+			_ = c.Close()
+		}
+	}()
+	go func() {
+		select {
+		case <-ctx.Done():
+			// Wake up Start, which waits for the next frame.
+			_ = p.Close()
+		case <-stop:
+		}
 	}()
 
 	done := make(chan struct{}, 1)
@@ -200,6 +220,9 @@ func (p *Transport) Start(ctx context.Context) error {
 			return fmt.Errorf("dispatch incoming frame failed: %w", err)
 		default:
 			f, err := p.conn.Read()
+			if err != nil && (ctx.Err() != nil || len(errChan) > 0) {
+				continue
+			}
 			if err == io.EOF {
 				return nil
 			}
-- 
2.43.0


From d1245302610240c7c456efafffeef9b81741e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 35/51] fix: send nothing for a flux that was cancelled before
 its request

---
 go/proxy/flux.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 590c507..4882624 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -165,8 +165,11 @@ func (s *streamFlux) Cancel() {
 			StreamID: s.request.StreamID,
 		})
 	}
+	// Nothing is sent after this, in particular no request.
+	s.complete = true
+	s.inDone = true
 	s.drain()
-	s.end(true, true)
+	s.remove(s.request.StreamID)
 	s.inDemand.cancel()
 }
 
-- 
2.43.0


From d2281b989db77fa1e7a3526b658ec5dec299d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:34 +0000
Subject: [PATCH 36/51] fix: take frames of a guest one by one, each with its
 own bytes, and answer broken ones

---
 go/transport/wasmrs/host/instance.go | 41 ++++++++++++----------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index e0d2df8..034f12b 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -1,12 +1,10 @@
 package host
 
 import (
-	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
 	"fmt"
-	"sync"
 
 	"github.com/tetratelabs/wazero/api"
 
@@ -24,7 +22,7 @@ type Instance struct {
 	ctx       context.Context
 	m         api.Module
 	sendCh    chan frames.Frame
-	recvCh    chan *bytes.Buffer //[]byte
+	recvCh    chan []byte
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -73,7 +71,7 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		ctx:    ctx,
 		m:      m,
 		sendCh: make(chan frames.Frame, 100),
-		recvCh: make(chan *bytes.Buffer, 100),
+		recvCh: make(chan []byte, 100),
 		sendFn: send,
 		// streams: make(map[uint32]proxy.Stream),
 		// streams:            make([]proxy.Stream, 1024*1024),
@@ -210,12 +208,6 @@ func (i *Instance) sendLoop() {
 	}
 }
 
-var buffers = sync.Pool{
-	New: func() interface{} {
-		return new(bytes.Buffer)
-	},
-}
-
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
@@ -229,29 +221,32 @@ func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
 
-	for len(buffer) > 0 {
+	for len(buffer) >= 3 {
 		var length [4]byte
 		copy(length[1:4], buffer[0:3])
 		buffer = buffer[3:]
 		frameLength := binary.BigEndian.Uint32(length[0:4])
-		buf := buffers.Get().(*bytes.Buffer)
-		buf.Reset()
-		buf.Write(buffer)
-		i.recvCh <- buf
+		if frameLength > uint32(len(buffer)) {
+			return
+		}
+		// The guest reuses its buffer, but what is in the frame
+		// can be held on to for as long as a handler likes.
+		i.recvCh <- append([]byte(nil), buffer[:frameLength]...)
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
 	for buf := range i.recvCh {
-		i.recvOne(buf.Bytes())
-		buf.Reset()
-		buffers.Put(buf)
+		i.recvOne(buf)
 	}
 }
 
 func (i *Instance) recvOne(data []byte) {
 	ctx := context.Background()
+	if len(data) < frames.FrameHeaderLen {
+		return
+	}
 	header := frames.ParseFrameHeader(data)
 	data = data[frames.FrameHeaderLen:]
 
@@ -275,7 +270,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -291,7 +286,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -307,7 +302,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -325,7 +320,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -343,7 +338,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
-- 
2.43.0


From 10b2cae5449ed756d47dd537a74f3e39f927e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:54 +0000
Subject: [PATCH 37/51] fix: let a host instance be closed at any time and
 never wait for itself

---
 go/transport/wasmrs/host/instance.go | 72 +++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 16 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 034f12b..423a65a 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -5,9 +5,11 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/tetratelabs/wazero/api"
 
+	"github.com/nanobus/iota/go/internal/buffer"
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
 	"github.com/nanobus/iota/go/invoke"
@@ -22,7 +24,9 @@ type Instance struct {
 	ctx       context.Context
 	m         api.Module
 	sendCh    chan frames.Frame
-	recvCh    chan []byte
+	recv      *buffer.Unbounded[[]byte]
+	done      chan struct{}
+	closeOnce sync.Once
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -71,7 +75,8 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		ctx:    ctx,
 		m:      m,
 		sendCh: make(chan frames.Frame, 100),
-		recvCh: make(chan []byte, 100),
+		recv:   buffer.NewUnbounded[[]byte](),
+		done:   make(chan struct{}),
 		sendFn: send,
 		// streams: make(map[uint32]proxy.Stream),
 		// streams:            make([]proxy.Stream, 1024*1024),
@@ -98,12 +103,30 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	return i, nil
 }
 
+// ErrClosed is the error of requests made on or pending at an instance
+// that was closed.
+var ErrClosed = errors.New("instance closed")
+
 func (i *Instance) Close() error {
-	close(i.sendCh)
-	close(i.recvCh)
+	i.closeOnce.Do(func() {
+		close(i.done)
+		i.recv.Dispose()
+		i.endStreams(ErrClosed)
+	})
 	return nil
 }
 
+// endStreams ends everything that is pending.
+func (i *Instance) endStreams(err error) {
+	streams := append(i.guestStreams.Clear(), i.hostStreams.Clear()...)
+	for _, s := range streams {
+		s.OnError(err)
+		if c, ok := s.(proxy.Canceller); ok {
+			c.OnCancel()
+		}
+	}
+}
+
 func (i *Instance) registerStream(s proxy.Stream) {
 	if s.StreamID()&1 == 1 {
 		i.guestStreams.Add(s)
@@ -144,8 +167,17 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
-	i.sendCh <- f
-	return nil
+	select {
+	case <-i.done:
+		return ErrClosed
+	default:
+	}
+	select {
+	case i.sendCh <- f:
+		return nil
+	case <-i.done:
+		return ErrClosed
+	}
 }
 
 func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
@@ -189,8 +221,13 @@ func (i *Instance) sendLoop() {
 		count++
 	}
 
-	for f := range i.sendCh {
-		write(f)
+	for {
+		select {
+		case f := <-i.sendCh:
+			write(f)
+		case <-i.done:
+			return
+		}
 		loop := true
 		for loop {
 			select {
@@ -219,25 +256,28 @@ func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 }
 
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
-	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
+	buf, _ := i.m.Memory().Read(i.recvPtr, recvPos)
 
-	for len(buffer) >= 3 {
+	for len(buf) >= 3 {
 		var length [4]byte
-		copy(length[1:4], buffer[0:3])
-		buffer = buffer[3:]
+		copy(length[1:4], buf[0:3])
+		buf = buf[3:]
 		frameLength := binary.BigEndian.Uint32(length[0:4])
-		if frameLength > uint32(len(buffer)) {
+		if frameLength > uint32(len(buf)) {
 			return
 		}
 		// The guest reuses its buffer, but what is in the frame
 		// can be held on to for as long as a handler likes.
-		i.recvCh <- append([]byte(nil), buffer[:frameLength]...)
-		buffer = buffer[frameLength:]
+		// This must not wait for the frames to be handled, as handling
+		// them can wait for the guest, which is calling here.
+		i.recv.Put(append([]byte(nil), buf[:frameLength]...))
+		buf = buf[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
+	for buf := range i.recv.Get() {
+		i.recv.Load()
 		i.recvOne(buf)
 	}
 }
-- 
2.43.0


From 6e55d3dc3dd4a48b7ec8ad97526babd8c2a097b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:52 +0000
Subject: [PATCH 38/51] fix: report values and answers that cannot be sent

---
 go/handler/handler.go                | 48 +++++++++++++---------
 go/proxy/flux.go                     | 30 +++++++++-----
 go/proxy/responder.go                |  6 +++
 go/transport/wasmrs/guest/guest.go   | 59 ++++++++++++++++++----------
 go/transport/wasmrs/host/instance.go | 56 +++++++++++++++++---------
 5 files changed, 132 insertions(+), 67 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index c14912b..2b6acf0 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -260,19 +260,18 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				i.sendError(streamID, err)
+			}
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 	})
 }
@@ -317,12 +316,15 @@ func (i *Handler) handleRequestStream(s *proxy.Responder, data, metadata []byte,
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				s.Fail(err)
+				i.sendError(streamID, err)
+			}
 		},
 		OnComplete: func() {
 			s.OutputDone(nil)
@@ -333,10 +335,7 @@ func (i *Handler) handleRequestStream(s *proxy.Responder, data, metadata []byte,
 		},
 		OnError: func(err error) {
 			s.OutputDone(err)
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 		NoRequest: true,
 	})
@@ -383,12 +382,15 @@ func (i *Handler) handleRequestChannel(s *proxy.Responder, data, metadata []byte
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				s.Fail(err)
+				i.sendError(streamID, err)
+			}
 		},
 		OnComplete: func() {
 			s.OutputDone(nil)
@@ -399,10 +401,7 @@ func (i *Handler) handleRequestChannel(s *proxy.Responder, data, metadata []byte
 		},
 		OnError: func(err error) {
 			s.OutputDone(err)
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 		NoRequest: true,
 	})
@@ -657,6 +656,19 @@ func (i *Handler) getRequestChannelHandler(index uint32) invoke.RequestChannelHa
 	return i.importedRC[index]
 }
 
+// sendError tells the requester of an error, or else why it cannot be told.
+func (i *Handler) sendError(streamID uint32, err error) {
+	if e := i.sendFrame(&frames.Error{
+		StreamID: streamID,
+		Data:     err.Error(),
+	}); e != nil {
+		i.sendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     e.Error(),
+		})
+	}
+}
+
 func (i *Handler) checkMetadata(streamID uint32, metadata []byte) bool {
 	if len(metadata) < 8 { // 48 before... but why?
 		i.SendFrame(&frames.Error{
diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 4882624..9f68d09 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -131,12 +131,15 @@ func (s *streamFlux) Request(n int) {
 	if subscribe {
 		s.in.Subscribe(flux.Subscribe[payload.Payload]{
 			OnNext: func(p payload.Payload) {
-				s.sendFrame(&frames.Payload{
+				if err := s.sendFrame(&frames.Payload{
 					StreamID: s.request.StreamID,
 					Metadata: p.Metadata(),
 					Data:     p.Data(),
 					Next:     true,
-				})
+				}); err != nil {
+					s.inDemand.cancel()
+					s.sendError(err)
+				}
 			},
 			OnComplete: func() {
 				s.sendFrame(&frames.Payload{
@@ -145,19 +148,28 @@ func (s *streamFlux) Request(n int) {
 				})
 				s.end(false, true)
 			},
-			OnError: func(err error) {
-				s.sendFrame(&frames.Error{
-					StreamID: s.request.StreamID,
-					Data:     err.Error(),
-				})
-				s.end(false, true)
-			},
+			OnError:   s.sendError,
 			NoRequest: true,
 		})
 		s.inDemand.attach(s.in.Subscription())
 	}
 }
 
+// sendError ends what is sent to the responder with an error, or else with
+// why it cannot be told.
+func (s *streamFlux) sendError(err error) {
+	if e := s.sendFrame(&frames.Error{
+		StreamID: s.request.StreamID,
+		Data:     err.Error(),
+	}); e != nil {
+		s.sendFrame(&frames.Error{
+			StreamID: s.request.StreamID,
+			Data:     e.Error(),
+		})
+	}
+	s.end(false, true)
+}
+
 func (s *streamFlux) Cancel() {
 	s.mu.Lock()
 	if !s.first {
diff --git a/go/proxy/responder.go b/go/proxy/responder.go
index 3b01de8..119fc9a 100644
--- a/go/proxy/responder.go
+++ b/go/proxy/responder.go
@@ -101,6 +101,12 @@ func (r *Responder) OutputDone(err error) {
 	r.drain()
 }
 
+// Fail ends the answer because a part of it cannot be sent.
+func (r *Responder) Fail(err error) {
+	r.out.cancel()
+	r.OutputDone(err)
+}
+
 func (r *Responder) feed(last bool, signal func(flux.Sink[payload.Payload])) {
 	r.mu.Lock()
 	if !r.inDone {
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index ab94492..5abc74a 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -34,6 +34,8 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+var errFrameTooLarge = errors.New("frame too large for the buffer of the host")
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -317,19 +319,18 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			if err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				sendError(streamID, err)
+			}
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			sendError(streamID, err)
 		},
 	})
 }
@@ -374,12 +375,15 @@ func handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uin
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			if err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				s.Fail(err)
+				sendError(streamID, err)
+			}
 		},
 		OnComplete: func() {
 			s.OutputDone(nil)
@@ -390,10 +394,7 @@ func handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uin
 		},
 		OnError: func(err error) {
 			s.OutputDone(err)
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			sendError(streamID, err)
 		},
 		NoRequest: true,
 	})
@@ -440,12 +441,15 @@ func handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN ui
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			if err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				s.Fail(err)
+				sendError(streamID, err)
+			}
 		},
 		OnComplete: func() {
 			s.OutputDone(nil)
@@ -456,10 +460,7 @@ func handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN ui
 		},
 		OnError: func(err error) {
 			s.OutputDone(err)
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			sendError(streamID, err)
 		},
 		NoRequest: true,
 	})
@@ -467,6 +468,19 @@ func handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN ui
 	s.SetSubscription(f.Subscription())
 }
 
+// sendError tells the requester of an error, or else why it cannot be told.
+func sendError(streamID uint32, err error) {
+	if e := sendFrame(&frames.Error{
+		StreamID: streamID,
+		Data:     err.Error(),
+	}); e != nil {
+		sendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     e.Error(),
+		})
+	}
+}
+
 func checkMetadata(streamID uint32, metadata []byte) bool {
 	if len(metadata) < 8 { // 48 before but why?
 		sendFrame(&frames.Error{
@@ -558,17 +572,20 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
-	doSendFrame(f)
-	return nil
+	return doSendFrame(f)
 }
 
-func doSendFrame(f frames.Frame) {
+func doSendFrame(f frames.Frame) error {
 	byteLength := f.Size()
+	if byteLength+3 > uint32(len(hostBuffer)) {
+		return errFrameTooLarge
+	}
 	var length [4]byte
 	binary.BigEndian.PutUint32(length[0:4], byteLength)
 	copy(hostBuffer[0:3], length[1:4])
 	f.Encode(hostBuffer[3:])
 	hostSend(byteLength + 3)
+	return nil
 }
 
 type DoRequest interface {
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 423a65a..da0fa2e 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -107,6 +107,9 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 // that was closed.
 var ErrClosed = errors.New("instance closed")
 
+// ErrFrameTooLarge is the error of what does not fit the buffer of the guest.
+var ErrFrameTooLarge = errors.New("frame too large for the buffer of the guest")
+
 func (i *Instance) Close() error {
 	i.closeOnce.Do(func() {
 		close(i.done)
@@ -167,6 +170,9 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
+	if f.Size()+3 > i.sendSize {
+		return ErrFrameTooLarge
+	}
 	select {
 	case <-i.done:
 		return ErrClosed
@@ -204,7 +210,7 @@ func (i *Instance) sendLoop() {
 
 		// if this frame does not fit,
 		// send the buffer and reset.
-		if pos+3+byteCount >= i.sendSize {
+		if pos+3+byteCount > i.sendSize {
 			i.sendFn.Call(ctx, uint64(pos))
 			pos = 0
 			count = 0
@@ -485,19 +491,18 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 	p := payload.New(data, metadata)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			if err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				i.sendError(streamID, err)
+			}
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 	})
 }
@@ -544,12 +549,15 @@ func (i *Instance) handleRequestStream(s *proxy.Responder, data, metadata []byte
 	f := handlerRS(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			if err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				s.Fail(err)
+				i.sendError(streamID, err)
+			}
 		},
 		OnComplete: func() {
 			s.OutputDone(nil)
@@ -560,10 +568,7 @@ func (i *Instance) handleRequestStream(s *proxy.Responder, data, metadata []byte
 		},
 		OnError: func(err error) {
 			s.OutputDone(err)
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 		NoRequest: true,
 	})
@@ -610,12 +615,15 @@ func (i *Instance) handleRequestChannel(s *proxy.Responder, data, metadata []byt
 	f := handlerRC(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			if err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				s.Fail(err)
+				i.sendError(streamID, err)
+			}
 		},
 		OnComplete: func() {
 			s.OutputDone(nil)
@@ -626,10 +634,7 @@ func (i *Instance) handleRequestChannel(s *proxy.Responder, data, metadata []byt
 		},
 		OnError: func(err error) {
 			s.OutputDone(err)
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 		NoRequest: true,
 	})
@@ -704,6 +709,19 @@ func (i *Instance) parentContext(ctx context.Context, metadata []byte) context.C
 	return ctx
 }
 
+// sendError tells the requester of an error, or else why it cannot be told.
+func (i *Instance) sendError(streamID uint32, err error) {
+	if e := i.SendFrame(&frames.Error{
+		StreamID: streamID,
+		Data:     err.Error(),
+	}); e != nil {
+		i.SendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     e.Error(),
+		})
+	}
+}
+
 func (i *Instance) checkMetadata(streamID uint32, metadata []byte) bool {
 	if len(metadata) < 8 { // 48 before... but why?
 		i.SendFrame(&frames.Error{
-- 
2.43.0


From 48cfa03701eed43e2d4f8382cf2deadaeea64256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:49 +0000
Subject: [PATCH 39/51] fix: report a guest that fails or exports nothing
 usable

---
 go/transport/wasmrs/host/instance.go | 93 +++++++++++++++++++---------
 1 file changed, 65 insertions(+), 28 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index da0fa2e..8ff0bb9 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -46,6 +46,7 @@ type Instance struct {
 	maxFrameSize       uint32
 	fragmentedPayloads map[uint32]fragmentedPayload
 	operations         operations.Table
+	operationsErr      error
 
 	importedRR   []invoke.RequestResponseHandler
 	importedRFNF []invoke.FireAndForgetHandler
@@ -92,10 +93,19 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	}
 
 	f := m.ExportedFunction("__wasmrs_op_list_request")
+	if f == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
 	_, err = f.Call(ctx)
 	if err != nil {
 		return nil, err
 	}
+	if i.operationsErr != nil {
+		return nil, i.operationsErr
+	}
+	if _, err = i.memory(i.sendPtr, i.sendSize); err != nil {
+		return nil, err
+	}
 
 	go i.recvLoop()
 	go i.sendLoop()
@@ -114,18 +124,20 @@ func (i *Instance) Close() error {
 	i.closeOnce.Do(func() {
 		close(i.done)
 		i.recv.Dispose()
-		i.endStreams(ErrClosed)
+		i.endStreams(ErrClosed)()
 	})
 	return nil
 }
 
-// endStreams ends everything that is pending.
-func (i *Instance) endStreams(err error) {
+// endStreams forgets everything that is pending, and returns what ends it.
+func (i *Instance) endStreams(err error) func() {
 	streams := append(i.guestStreams.Clear(), i.hostStreams.Clear()...)
-	for _, s := range streams {
-		s.OnError(err)
-		if c, ok := s.(proxy.Canceller); ok {
-			c.OnCancel()
+	return func() {
+		for _, s := range streams {
+			s.OnError(err)
+			if c, ok := s.(proxy.Canceller); ok {
+				c.OnCancel()
+			}
 		}
 	}
 }
@@ -191,31 +203,54 @@ func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
 	i.recvPtr = recvPtr
 }
 
+var errMemory = errors.New("buffer outside of the memory of the guest")
+
+// memory returns a part of the memory of the guest.
+func (i *Instance) memory(ptr, size uint32) ([]byte, error) {
+	mem := i.m.Memory()
+	if mem == nil {
+		return nil, errMemory
+	}
+	buf, ok := mem.Read(ptr, size)
+	if !ok {
+		return nil, errMemory
+	}
+	return buf, nil
+}
+
 func (i *Instance) sendLoop() {
 	var lengthBytes [4]byte
 	ctx := context.WithValue(i.ctx, instanceKey{}, i)
 	var buf []byte
 	pos := uint32(0)
-	count := 0
 
-	write := func(f frames.Frame) {
-		// Make sure to obtain the buffer
-		// in case it changed size via grow/shrink.
-		if pos == 0 {
-			mem := i.m.Memory()
-			buf, _ = mem.Read(i.sendPtr, i.sendSize)
+	// What the guest did not get, or failed on, is never answered.
+	flush := func() {
+		_, err := i.sendFn.Call(ctx, uint64(pos))
+		pos = 0
+		if err != nil {
+			// Not here, as those who hear of it can send more.
+			go i.endStreams(err)()
 		}
+	}
 
+	write := func(f frames.Frame) {
 		byteCount := f.Size()
 
 		// if this frame does not fit,
 		// send the buffer and reset.
 		if pos+3+byteCount > i.sendSize {
-			i.sendFn.Call(ctx, uint64(pos))
-			pos = 0
-			count = 0
-			mem := i.m.Memory()
-			buf, _ = mem.Read(i.sendPtr, i.sendSize)
+			flush()
+		}
+
+		// Make sure to obtain the buffer
+		// in case it changed size via grow/shrink.
+		if pos == 0 {
+			var err error
+			if buf, err = i.memory(i.sendPtr, i.sendSize); err != nil {
+				go i.endStreams(err)()
+				return
+			}
 		}
 
 		// Encode length and frame data.
@@ -223,8 +258,6 @@ func (i *Instance) sendLoop() {
 		copy(buf[pos:], lengthBytes[1:4])
 		f.Encode(buf[pos+3:])
 		pos += 3 + byteCount
-
-		count++
 	}
 
 	for {
@@ -241,9 +274,7 @@ func (i *Instance) sendLoop() {
 				write(f)
 			default:
 				if pos > 0 {
-					i.sendFn.Call(ctx, uint64(pos))
-					pos = 0
-					count = 0
+					flush()
 				}
 				loop = false
 			}
@@ -256,13 +287,19 @@ func (i *Instance) Operations() operations.Table {
 }
 
 func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
-	buf, _ := i.m.Memory().Read(opPtr, opSize)
-	operations, _ := operations.FromBytes(buf)
-	i.operations = operations
+	buf, err := i.memory(opPtr, opSize)
+	if err != nil {
+		i.operationsErr = err
+		return
+	}
+	i.operations, i.operationsErr = operations.FromBytes(buf)
 }
 
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
-	buf, _ := i.m.Memory().Read(i.recvPtr, recvPos)
+	buf, err := i.memory(i.recvPtr, recvPos)
+	if err != nil {
+		return
+	}
 
 	for len(buf) >= 3 {
 		var length [4]byte
-- 
2.43.0


From bae2410aa805ad908b042be8a85b87d20ea3d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:16 +0000
Subject: [PATCH 40/51] fix: let handlers be set while requests arrive

---
 go/handler/handler.go                | 54 +++++++++++++++-------------
 go/transport/wasmrs/host/instance.go | 53 ++++++++++++++-------------
 2 files changed, 59 insertions(+), 48 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 2b6acf0..5875be5 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -33,10 +34,11 @@ type Handler struct {
 	// maxFrameSize       uint32
 	// fragmentedPayloads map[uint32]fragmentedPayload
 
-	importedRR   []invoke.RequestResponseHandler
-	importedRFNF []invoke.FireAndForgetHandler
-	importedRS   []invoke.RequestStreamHandler
-	importedRC   []invoke.RequestChannelHandler
+	importedMu   sync.RWMutex // guards the maps below
+	importedRR   map[uint32]invoke.RequestResponseHandler
+	importedRFNF map[uint32]invoke.FireAndForgetHandler
+	importedRS   map[uint32]invoke.RequestStreamHandler
+	importedRC   map[uint32]invoke.RequestChannelHandler
 }
 
 // type fragmentedPayload struct {
@@ -601,58 +603,62 @@ func (i *Handler) handleRequestChannel(s *proxy.Responder, data, metadata []byte
 // }
 
 func (i *Handler) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
-	for uint32(len(i.importedRR)) < index+1 {
-		i.importedRR = append(i.importedRR, nil)
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
+	if i.importedRR == nil {
+		i.importedRR = make(map[uint32]invoke.RequestResponseHandler)
 	}
 	i.importedRR[index] = handler
 }
 
 func (i *Handler) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
-	if uint32(len(i.importedRR)) <= index {
-		return nil
-	}
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	return i.importedRR[index]
 }
 
 func (i *Handler) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
-	for uint32(len(i.importedRFNF)) < index+1 {
-		i.importedRFNF = append(i.importedRFNF, nil)
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
+	if i.importedRFNF == nil {
+		i.importedRFNF = make(map[uint32]invoke.FireAndForgetHandler)
 	}
 	i.importedRFNF[index] = handler
 }
 
 func (i *Handler) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
-	if uint32(len(i.importedRFNF)) <= index {
-		return nil
-	}
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	return i.importedRFNF[index]
 }
 
 func (i *Handler) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
-	for uint32(len(i.importedRS)) < index+1 {
-		i.importedRS = append(i.importedRS, nil)
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
+	if i.importedRS == nil {
+		i.importedRS = make(map[uint32]invoke.RequestStreamHandler)
 	}
 	i.importedRS[index] = handler
 }
 
 func (i *Handler) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
-	if uint32(len(i.importedRS)) <= index {
-		return nil
-	}
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	return i.importedRS[index]
 }
 
 func (i *Handler) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
-	for uint32(len(i.importedRC)) < index+1 {
-		i.importedRC = append(i.importedRC, nil)
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
+	if i.importedRC == nil {
+		i.importedRC = make(map[uint32]invoke.RequestChannelHandler)
 	}
 	i.importedRC[index] = handler
 }
 
 func (i *Handler) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
-	if uint32(len(i.importedRC)) <= index {
-		return nil
-	}
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	return i.importedRC[index]
 }
 
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 8ff0bb9..0e18b60 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -48,10 +48,11 @@ type Instance struct {
 	operations         operations.Table
 	operationsErr      error
 
-	importedRR   []invoke.RequestResponseHandler
-	importedRFNF []invoke.FireAndForgetHandler
-	importedRS   []invoke.RequestStreamHandler
-	importedRC   []invoke.RequestChannelHandler
+	importedMu   sync.RWMutex // guards the maps below
+	importedRR   map[uint32]invoke.RequestResponseHandler
+	importedRFNF map[uint32]invoke.FireAndForgetHandler
+	importedRS   map[uint32]invoke.RequestStreamHandler
+	importedRC   map[uint32]invoke.RequestChannelHandler
 }
 
 type fragmentedPayload struct {
@@ -680,58 +681,62 @@ func (i *Instance) handleRequestChannel(s *proxy.Responder, data, metadata []byt
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
-	for uint32(len(i.importedRR)) < index+1 {
-		i.importedRR = append(i.importedRR, nil)
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
+	if i.importedRR == nil {
+		i.importedRR = make(map[uint32]invoke.RequestResponseHandler)
 	}
 	i.importedRR[index] = handler
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
-	if uint32(len(i.importedRR)) <= index {
-		return nil
-	}
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	return i.importedRR[index]
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
-	for uint32(len(i.importedRFNF)) < index+1 {
-		i.importedRFNF = append(i.importedRFNF, nil)
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
+	if i.importedRFNF == nil {
+		i.importedRFNF = make(map[uint32]invoke.FireAndForgetHandler)
 	}
 	i.importedRFNF[index] = handler
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
-	if uint32(len(i.importedRFNF)) <= index {
-		return nil
-	}
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	return i.importedRFNF[index]
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
-	for uint32(len(i.importedRS)) < index+1 {
-		i.importedRS = append(i.importedRS, nil)
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
+	if i.importedRS == nil {
+		i.importedRS = make(map[uint32]invoke.RequestStreamHandler)
 	}
 	i.importedRS[index] = handler
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
-	if uint32(len(i.importedRS)) <= index {
-		return nil
-	}
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	return i.importedRS[index]
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
-	for uint32(len(i.importedRC)) < index+1 {
-		i.importedRC = append(i.importedRC, nil)
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
+	if i.importedRC == nil {
+		i.importedRC = make(map[uint32]invoke.RequestChannelHandler)
 	}
 	i.importedRC[index] = handler
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
-	if uint32(len(i.importedRC)) <= index {
-		return nil
-	}
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	return i.importedRC[index]
 }
 
-- 
2.43.0


From 05745f8245c6f7c3dcbf1f1bb572f8e1bef054f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:34 +0000
Subject: [PATCH 41/51] fix: take broken frames of a host without trapping

---
 go/transport/wasmrs/guest/guest.go | 32 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 5abc74a..6533e57 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -107,16 +107,24 @@ func convertOperations(handlers []invoke.HandlerInfo, requestType operations.Req
 func GuestSend(endPos uint32) {
 	ctx := context.Background()
 	var lengthBuf [4]byte
-	curPos := uint32(0)
 	buf := guestBuffer
+	if uint32(len(buf)) > endPos {
+		buf = buf[:endPos]
+	}
 
-	for curPos < endPos {
+	for len(buf) >= 3 {
 		copy(lengthBuf[1:], buf)
 		frameLen := binary.BigEndian.Uint32(lengthBuf[:])
+		buf = buf[3:]
+		if frameLen > uint32(len(buf)) {
+			return
+		}
 		frameBuf := make([]byte, frameLen)
-		copy(frameBuf, buf[3:])
-		curPos += 3 + frameLen
-		buf = buf[3+frameLen:]
+		copy(frameBuf, buf)
+		buf = buf[frameLen:]
+		if frameLen < frames.FrameHeaderLen {
+			continue
+		}
 
 		// lengthPos = 1 // Reset for next frame
 		header := frames.ParseFrameHeader(frameBuf)
@@ -143,7 +151,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -159,7 +167,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -175,7 +183,7 @@ func GuestSend(endPos uint32) {
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -193,10 +201,10 @@ func GuestSend(endPos uint32) {
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
@@ -211,10 +219,10 @@ func GuestSend(endPos uint32) {
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 
 			if s, ok := str.(DoRequest); ok {
-- 
2.43.0


From d1e9bfff0aa3f01845d9a308e4e3fd17ab3504fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:37 +0000
Subject: [PATCH 42/51] fix: route mesh requests by name and type to the module
 loaded last

---
 go/transport/wasmrs/mesh/mesh.go | 163 +++++++++++++++++++------------
 1 file changed, 99 insertions(+), 64 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index 0ba06f8..03bee06 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -3,8 +3,10 @@ package mesh
 import (
 	"context"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -21,11 +23,18 @@ import (
 type (
 	Mesh struct {
 		verbose     bool
+		mu          sync.RWMutex // guards the fields below
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[string]map[operation]*atomic.Pointer[destination]
 		unsatisfied []*pending
 	}
 
+	// Operations of different types can have the same name.
+	operation struct {
+		name string
+		typ  operations.RequestType
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -48,7 +57,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     map[string]map[operation]*atomic.Pointer[destination]{},
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -59,67 +68,65 @@ func New(opts ...Option) *Mesh {
 	return &m
 }
 
-func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
-	ns, ok := m.exports[namespace]
+// ErrNotFound is the error of requests for an operation that no module exports.
+var ErrNotFound = errors.New("not_found")
+
+// find returns the current destination of an operation, or nil.
+func (m *Mesh) find(namespace, name string, typ operations.RequestType) *destination {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
+	return m.findLocked(namespace, name, typ)
+}
+
+func (m *Mesh) findLocked(namespace, name string, typ operations.RequestType) *destination {
+	ptr, ok := m.exports[namespace][operation{name, typ}]
 	if !ok {
 		return nil
 	}
+	return ptr.Load()
+}
 
-	ptr, ok := ns[operation]
-	if !ok {
-		return nil
+func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
+	dest := m.find(namespace, operation, operations.RequestResponse)
+	if dest == nil {
+		return mono.Error[payload.Payload](ErrNotFound)
 	}
-	dest := ptr.Load()
 
 	return dest.RequestResponse(ctx, p)
 }
 
 func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p payload.Payload) {
-	ns, ok := m.exports[namespace]
-	if !ok {
+	dest := m.find(namespace, operation, operations.FireAndForget)
+	if dest == nil {
 		return
 	}
 
-	ptr, ok := ns[operation]
-	if !ok {
-		return
-	}
-	dest := ptr.Load()
-
 	dest.FireAndForget(ctx, p)
 }
 
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
-	if !ok {
-		return nil
+	dest := m.find(namespace, operation, operations.RequestStream)
+	if dest == nil {
+		return flux.Error[payload.Payload](ErrNotFound)
 	}
-	dest := ptr.Load()
 
 	return dest.RequestStream(ctx, p)
 }
 
 func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
-	if !ok {
-		return nil
+	dest := m.find(namespace, operation, operations.RequestChannel)
+	if dest == nil {
+		return flux.Error[payload.Payload](ErrNotFound)
 	}
-	dest := ptr.Load()
 
 	return dest.RequestChannel(ctx, p, in)
 }
 
 func (m *Mesh) Close() {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
 	for _, inst := range m.instances {
 		inst.Close()
 	}
@@ -154,6 +161,9 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		return nil, err
 	}
 
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	// Close previously loaded instance.
 	existing, ok := m.instances[filename]
 	if ok {
@@ -169,6 +179,9 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		fmt.Println("Loaded " + filename)
 	}
 	m.linkOperations(inst)
+	if ok {
+		m.unlinkOperations(existing)
+	}
 
 	return inst, nil
 }
@@ -193,13 +206,14 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 		case operations.Export:
 			ns, ok := m.exports[op.Namespace]
 			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
+				ns = make(map[operation]*atomic.Pointer[destination])
 				m.exports[op.Namespace] = ns
 			}
-			ptr, ok := ns[op.Operation]
+			key := operation{op.Operation, op.Type}
+			ptr, ok := ns[key]
 			if !ok {
 				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				ns[key] = ptr
 			}
 
 			ptr.Store(&destination{
@@ -234,60 +248,81 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 	}
 }
 
-func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool {
-	ns, ok := m.exports[op.Namespace]
-	if !ok {
-		return false
+// unlinkOperations forgets what is left of an instance that was replaced.
+func (m *Mesh) unlinkOperations(inst *host.Instance) {
+	for _, ns := range m.exports {
+		for _, ptr := range ns {
+			if dest := ptr.Load(); dest != nil && dest.instance == inst {
+				ptr.Store(nil)
+			}
+		}
 	}
 
-	ptr, ok := ns[op.Operation]
-	if !ok {
+	filtered := m.unsatisfied[:0]
+	for _, u := range m.unsatisfied {
+		if u.instance != inst {
+			filtered = append(filtered, u)
+		}
+	}
+	m.unsatisfied = filtered
+}
+
+func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool {
+	// The destination is looked up for every request,
+	// as the module that exports the operation can be replaced.
+	if dest := m.findLocked(op.Namespace, op.Operation, op.Type); dest == nil {
 		return false
 	}
-	dest := ptr.Load()
 
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+			return m.RequestResponse(ctx, op.Namespace, op.Operation, p)
+		})
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p payload.Payload) {
+			m.FireAndForget(ctx, op.Namespace, op.Operation, p)
+		})
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+			return m.RequestStream(ctx, op.Namespace, op.Operation, p)
+		})
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+			return m.RequestChannel(ctx, op.Namespace, op.Operation, p, in)
+		})
 	}
 
 	return true
 }
 
-func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
+// address returns p with the index of the operation in its metadata.
+// The metadata of p still belongs to the caller.
+func (d *destination) address(p payload.Payload) payload.Payload {
+	if len(p.Metadata()) < 4 {
+		return p
 	}
+	md := append([]byte(nil), p.Metadata()...)
+	binary.BigEndian.PutUint32(md, d.index)
+	return payload.New(p.Data(), md)
+}
+
+func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+	p = d.address(p)
 	return d.instance.RequestResponse(ctx, p)
 }
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	d.instance.FireAndForget(ctx, p)
 }
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	return d.instance.RequestStream(ctx, p)
 }
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	return d.instance.RequestChannel(ctx, p, in)
 }
-- 
2.43.0


From dcde0c7cccf5a446873adb0779f50d813d2bc1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 43/51] fix: end requests that are made while an instance is
 being closed

---
 go/proxy/flux.go                     | 7 ++-----
 go/transport/wasmrs/host/instance.go | 5 +++++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 9f68d09..71f254f 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -114,6 +114,7 @@ func (s *streamFlux) Request(n int) {
 	}
 	first := s.first
 	if first {
+		s.register(s) // now that the subscriber hears what happens
 		s.request.InitialN = uint32(n)
 		s.first = false
 		s.queue = append(s.queue, &s.request)
@@ -213,13 +214,9 @@ func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[pa
 	return s
 }
 
-// start registers the stream when it is first subscribed.
+// start notes that there is a subscriber.
 func (s *streamFlux) start() {
 	s.mu.Lock()
-	subscribed := s.subscribed
 	s.subscribed = true
 	s.mu.Unlock()
-	if !subscribed {
-		s.register(s)
-	}
 }
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 0e18b60..2b926b7 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -149,6 +149,11 @@ func (i *Instance) registerStream(s proxy.Stream) {
 	} else {
 		i.hostStreams.Add(s)
 	}
+	select {
+	case <-i.done:
+		go i.endStreams(ErrClosed)()
+	default:
+	}
 
 	// i.streamMu.Lock()
 	// defer i.streamMu.Unlock()
-- 
2.43.0


From 805c90729ef653bdc95105306c2cbf80e3df6a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 44/51] fix: report a connection that ends inside a frame

---
 go/transport/rsocket/decoder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index 571cd7e..87230e8 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -47,7 +47,7 @@ func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
 		return
 	}
 	if len(data) < lengthFieldSize {
-		return
+		return incomplete(eof)
 	}
 	frameLength := u24.ReadUint24ToInt(data)
 	if frameLength < 1 {
@@ -58,6 +58,14 @@ func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
 	if frameSize <= len(data) {
 		return frameSize, data[:frameSize], nil
 	}
+	return incomplete(eof)
+}
+
+// incomplete asks for more data, unless there is none.
+func incomplete(eof bool) (advance int, token []byte, err error) {
+	if eof {
+		err = io.ErrUnexpectedEOF
+	}
 	return
 }
 
-- 
2.43.0


From 4a61324ee3d7014e015717152c8cbddfcaa887c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 45/51] fix: do not serve a stream request whose id is in use

---
 go/handler/handler.go                | 6 ++++++
 go/transport/wasmrs/guest/guest.go   | 6 ++++++
 go/transport/wasmrs/host/instance.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 5875be5..f14fbed 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -155,6 +155,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
+			if _, ok := i.getStream(streamID); ok { // It would get the frames of that one.
+				return
+			}
 			s := proxy.NewResponder(i.ctx, streamID, false, i.removeStream)
 			i.registerStream(s) // Need to register for RequestN frames
 			go i.handleRequestStream(s, v.Data, v.Metadata, v.InitialN)
@@ -165,6 +168,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
+			if _, ok := i.getStream(streamID); ok { // It would get the frames of that one.
+				return
+			}
 			s := proxy.NewResponder(i.ctx, streamID, true, i.removeStream)
 			i.registerStream(s) // Need to register for RequestN frames
 			go i.handleRequestChannel(s, v.Data, v.Metadata, v.InitialN)
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 6533e57..9f10f36 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -193,6 +193,9 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
+			if _, ok := getStream(rs.StreamID); ok { // It would get the frames of that one.
+				continue
+			}
 			s := proxy.NewResponder(ctx, rs.StreamID, false, removeStream)
 			registerStream(s) // Need to register for RequestN frames
 			handleRequestStream(s, rs.Data, rs.Metadata, rs.InitialN)
@@ -211,6 +214,9 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
+			if _, ok := getStream(rc.StreamID); ok { // It would get the frames of that one.
+				continue
+			}
 			s := proxy.NewResponder(ctx, rc.StreamID, true, removeStream)
 			registerStream(s) // Need to register for RequestN frames
 			handleRequestChannel(s, rc.Data, rc.Metadata, rc.InitialN)
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 2b926b7..9162495 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -401,6 +401,9 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
+		if _, ok := i.getStream(rs.StreamID); ok { // It would get the frames of that one.
+			return
+		}
 		s := proxy.NewResponder(i.parentContext(ctx, rs.Metadata), rs.StreamID, false, i.removeStream)
 		i.registerStream(s) // Need to register for RequestN frames
 		go i.handleRequestStream(s, rs.Data, rs.Metadata, rs.InitialN)
@@ -419,6 +422,9 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
+		if _, ok := i.getStream(rc.StreamID); ok { // It would get the frames of that one.
+			return
+		}
 		s := proxy.NewResponder(i.parentContext(ctx, rc.Metadata), rc.StreamID, true, i.removeStream)
 		i.registerStream(s) // Need to register for RequestN frames
 		go i.handleRequestChannel(s, rc.Data, rc.Metadata, rc.InitialN)
-- 
2.43.0


From 596356e89d087108488ae923a834da152492fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 46/51] fix: run every handler in the context of its request

---
 go/handler/handler.go                |  5 ++---
 go/transport/wasmrs/guest/guest.go   |  5 ++---
 go/transport/wasmrs/host/instance.go | 16 ++--------------
 3 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index f14fbed..efef7b9 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -302,7 +302,7 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 }
 
 func (i *Handler) handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uint32) {
-	ctx, streamID := s.Context(), s.StreamID()
+	ctx, streamID := proxy.WithContext(s.Context(), s), s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
 		i.removeStream(streamID)
 		return
@@ -320,7 +320,6 @@ func (i *Handler) handleRequestStream(s *proxy.Responder, data, metadata []byte,
 	}
 
 	p := payload.New(data, metadata)
-	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
@@ -352,7 +351,7 @@ func (i *Handler) handleRequestStream(s *proxy.Responder, data, metadata []byte,
 }
 
 func (i *Handler) handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN uint32) {
-	ctx, streamID := s.Context(), s.StreamID()
+	ctx, streamID := proxy.WithContext(s.Context(), s), s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
 		i.removeStream(streamID)
 		return
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 9f10f36..2a59c56 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -367,7 +367,7 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 }
 
 func handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uint32) {
-	ctx, streamID := s.Context(), s.StreamID()
+	ctx, streamID := proxy.WithContext(s.Context(), s), s.StreamID()
 	if !checkMetadata(streamID, metadata) {
 		removeStream(streamID)
 		return
@@ -385,7 +385,6 @@ func handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uin
 	}
 
 	p := payload.New(data, metadata)
-	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
@@ -417,7 +416,7 @@ func handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uin
 }
 
 func handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN uint32) {
-	ctx, streamID := s.Context(), s.StreamID()
+	ctx, streamID := proxy.WithContext(s.Context(), s), s.StreamID()
 	if !checkMetadata(streamID, metadata) {
 		removeStream(streamID)
 		return
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 9162495..4754806 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -369,7 +369,7 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestResponse(ctx, rr.StreamID, rr.Data, rr.Metadata)
+		go i.handleRequestResponse(i.parentContext(ctx, rr.Metadata), rr.StreamID, rr.Data, rr.Metadata)
 
 	case frames.FrameTypeRequestFNF:
 		var rr frames.RequestPayload
@@ -385,7 +385,7 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleFireAndForget(ctx, rr.StreamID, rr.Data, rr.Metadata)
+		go i.handleFireAndForget(i.parentContext(ctx, rr.Metadata), rr.StreamID, rr.Data, rr.Metadata)
 
 	case frames.FrameTypeRequestStream:
 		var rs frames.RequestPayload
@@ -523,12 +523,6 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handler := i.getRequestResponseHandler(operationID)
 	if handler == nil {
 		i.SendFrame(&frames.Error{
@@ -562,12 +556,6 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handler := i.getFireAndForgetHandler(operationID)
 	if handler == nil {
 		return
-- 
2.43.0


From ba67f0d820acd63114dbad908ab8108e8e04d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 47/51] fix: cancel nothing that could not be requested

---
 go/proxy/flux.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 71f254f..4214731 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -200,6 +200,11 @@ func (s *streamFlux) drain() {
 		}
 		s.mu.Lock()
 		s.sending = false
+		if err != nil && f == &s.request {
+			// There is nothing to cancel.
+			s.first = true
+			s.queue = nil
+		}
 	}
 	s.mu.Unlock()
 }
-- 
2.43.0


From 0254f5b96688a0e70ee69e16d3d717cc50f0806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 48/51] fix: pass integers to invoked operations as integers

---
 .../wasmrs/cmd/wasmrs/commands/invoke.go      | 47 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/go/transport/wasmrs/cmd/wasmrs/commands/invoke.go b/go/transport/wasmrs/cmd/wasmrs/commands/invoke.go
index 78eb822..c13109a 100644
--- a/go/transport/wasmrs/cmd/wasmrs/commands/invoke.go
+++ b/go/transport/wasmrs/cmd/wasmrs/commands/invoke.go
@@ -1,12 +1,15 @@
 package commands
 
 import (
+	"bytes"
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"log"
 	"os"
+	"strconv"
 
 	"github.com/vmihailenco/msgpack/v5"
 
@@ -43,8 +46,8 @@ func (c *InvokeCmd) Run() error {
 	if err != nil {
 		return fmt.Errorf("could not read stdin: %w", err)
 	}
-	var dataIface interface{}
-	if err = json.Unmarshal(data, &dataIface); err != nil {
+	dataIface, err := parseInput(data)
+	if err != nil {
 		return fmt.Errorf("could not parse stdin: %w", err)
 	}
 	input, err := msgpack.Marshal(dataIface)
@@ -79,3 +82,43 @@ func (c *InvokeCmd) Run() error {
 
 	return nil
 }
+
+// parseInput parses a JSON document. Integers stay integers, as modules
+// do not read floating point numbers as such.
+func parseInput(data []byte) (value interface{}, err error) {
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+	if err = dec.Decode(&value); err != nil {
+		return nil, err
+	}
+	if _, err = dec.Token(); err != io.EOF {
+		return nil, errors.New("unexpected data after the document")
+	}
+	return convertNumbers(value)
+}
+
+func convertNumbers(value interface{}) (_ interface{}, err error) {
+	switch v := value.(type) {
+	case json.Number:
+		if i, err := v.Int64(); err == nil {
+			return i, nil
+		}
+		if u, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			return u, nil
+		}
+		return v.Float64()
+	case []interface{}:
+		for i := range v {
+			if v[i], err = convertNumbers(v[i]); err != nil {
+				return nil, err
+			}
+		}
+	case map[string]interface{}:
+		for k := range v {
+			if v[k], err = convertNumbers(v[k]); err != nil {
+				return nil, err
+			}
+		}
+	}
+	return value, nil
+}
-- 
2.43.0


From a6175556e13a73b201a002686ba7f92bc996e14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 49/51] fix: record operations without rewriting the rest of
 the module

---
 go/transport/wasmrs/cmd/wasmrs-ops/main.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/go/transport/wasmrs/cmd/wasmrs-ops/main.go b/go/transport/wasmrs/cmd/wasmrs-ops/main.go
index 6d191d2..11a2f23 100644
--- a/go/transport/wasmrs/cmd/wasmrs-ops/main.go
+++ b/go/transport/wasmrs/cmd/wasmrs-ops/main.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"context"
+	leb128 "encoding/binary"
 	"fmt"
 	"log"
 	"os"
@@ -62,9 +63,10 @@ func main() {
 			Name: WASMRS_SECTION_NAME,
 			Data: opTable.ToBytes(),
 		}
-		mod.CustomSections = append(mod.CustomSections, wasmrs)
 
-		bin = binary.EncodeModule(mod)
+		// The rest of the file stays as it is: encoding the decoded module
+		// would lose or move other sections.
+		bin = appendCustomSection(bin, wasmrs)
 		if err = os.WriteFile(filename, bin, 0644); err != nil {
 			log.Panicln(err)
 		}
@@ -80,6 +82,16 @@ func main() {
 	fmt.Println("")
 }
 
+func appendCustomSection(bin []byte, section *wasm.CustomSection) []byte {
+	body := leb128.AppendUvarint(nil, uint64(len(section.Name)))
+	body = append(body, section.Name...)
+	body = append(body, section.Data...)
+
+	bin = append(bin, wasm.SectionIDCustom)
+	bin = leb128.AppendUvarint(bin, uint64(len(body)))
+	return append(bin, body...)
+}
+
 func printOperationTable(opTable operations.Table) {
 	fmt.Println("WasmRS operation table")
 	fmt.Println("")
-- 
2.43.0


From 1608937efb4189ca7cde96f2fcbcfc45bc77eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:57 +0000
Subject: [PATCH 50/51] fix: refuse incomplete or unknown frames and operation
 lists in the Rust decoder

---
 rust/crates/wasmrs/src/error.rs               |  3 ++
 rust/crates/wasmrs/src/frames/f_error.rs      |  4 +-
 rust/crates/wasmrs/src/frames/f_payload.rs    |  6 +--
 rust/crates/wasmrs/src/frames/f_request_n.rs  |  4 +-
 rust/crates/wasmrs/src/frames/header.rs       |  7 ++-
 rust/crates/wasmrs/src/frames/mod.rs          | 14 +++--
 .../wasmrs/src/frames/request_payload.rs      |  8 +--
 rust/crates/wasmrs/src/operations.rs          | 51 +++++++++++--------
 rust/crates/wasmrs/src/util.rs                | 10 ++++
 9 files changed, 67 insertions(+), 40 deletions(-)

diff --git a/rust/crates/wasmrs/src/error.rs b/rust/crates/wasmrs/src/error.rs
index 73916c5..50027b0 100644
--- a/rust/crates/wasmrs/src/error.rs
+++ b/rust/crates/wasmrs/src/error.rs
@@ -18,6 +18,8 @@ pub enum Error {
   StringConversion,
   /// [crate::Metadata] not found in [crate::Payload]
   MetadataNotFound,
+  /// The bytes end before the value they hold is complete.
+  Incomplete,
 }
 
 impl std::error::Error for Error {}
@@ -30,6 +32,7 @@ impl std::fmt::Display for Error {
       Error::WrongType => f.write_str("Tried to decode frame with wrong frame decoder"),
       Error::StringConversion => f.write_str("Could not read string bytes"),
       Error::MetadataNotFound => f.write_str("No metadata found"),
+      Error::Incomplete => f.write_str("Incomplete frame"),
     }
   }
 }
diff --git a/rust/crates/wasmrs/src/frames/f_error.rs b/rust/crates/wasmrs/src/frames/f_error.rs
index 4cfbbdd..7a2a8fb 100644
--- a/rust/crates/wasmrs/src/frames/f_error.rs
+++ b/rust/crates/wasmrs/src/frames/f_error.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameHeader, FrameType, RSocketFrame};
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take};
 use crate::Frame;
 
 #[derive()]
@@ -33,7 +33,7 @@ impl RSocketFrame<ErrorFrame> for ErrorFrame {
 
     Ok(ErrorFrame {
       stream_id: header.stream_id(),
-      code: from_u32_bytes(&buffer.split_to(4)),
+      code: from_u32_bytes(&take(&mut buffer, 4)?),
       data: String::from_utf8(buffer.to_vec()).map_err(|_| crate::Error::StringConversion)?,
     })
   }
diff --git a/rust/crates/wasmrs/src/frames/f_payload.rs b/rust/crates/wasmrs/src/frames/f_payload.rs
index 9b021f5..d34bfc4 100644
--- a/rust/crates/wasmrs/src/frames/f_payload.rs
+++ b/rust/crates/wasmrs/src/frames/f_payload.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameFlags, FrameHeader, FrameType, RSocketFlags, RSocketFrame};
-use crate::util::{from_u24_bytes, to_u24_bytes};
+use crate::util::{from_u24_bytes, take, to_u24_bytes};
 use crate::{Frame, Payload};
 
 /// A Payload frame.
@@ -52,8 +52,8 @@ impl RSocketFrame<PayloadFrame> for PayloadFrame {
     Self::check_type(header)?;
 
     let metadata = if header.has_metadata() {
-      let metadata_len = from_u24_bytes(&buffer.split_to(3)) as usize;
-      buffer.split_to(metadata_len)
+      let metadata_len = from_u24_bytes(&take(&mut buffer, 3)?) as usize;
+      take(&mut buffer, metadata_len)?
     } else {
       Bytes::new()
     };
diff --git a/rust/crates/wasmrs/src/frames/f_request_n.rs b/rust/crates/wasmrs/src/frames/f_request_n.rs
index b588f68..076c81a 100644
--- a/rust/crates/wasmrs/src/frames/f_request_n.rs
+++ b/rust/crates/wasmrs/src/frames/f_request_n.rs
@@ -1,7 +1,7 @@
 use bytes::Bytes;
 
 use super::{Error, FrameHeader, FrameType, RSocketFrame};
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take};
 use crate::Frame;
 
 #[derive(Clone, Copy)]
@@ -31,7 +31,7 @@ impl RSocketFrame<RequestN> for RequestN {
     Self::check_type(header)?;
     Ok(RequestN {
       stream_id: header.stream_id(),
-      n: from_u32_bytes(&buffer.split_to(4)),
+      n: from_u32_bytes(&take(&mut buffer, 4)?),
     })
   }
 
diff --git a/rust/crates/wasmrs/src/frames/header.rs b/rust/crates/wasmrs/src/frames/header.rs
index 7fa2db7..b516103 100644
--- a/rust/crates/wasmrs/src/frames/header.rs
+++ b/rust/crates/wasmrs/src/frames/header.rs
@@ -42,8 +42,13 @@ impl FrameHeader {
   }
 
   pub(crate) fn frame_type(&self) -> FrameType {
+    self.known_type().unwrap()
+  }
+
+  /// The frame type, or nothing if the header names none.
+  pub(crate) fn known_type(&self) -> Option<FrameType> {
     let id: u8 = self.header[4] >> 2;
-    id.try_into().unwrap()
+    id.try_into().ok()
   }
 
   pub(crate) fn check(&self, flag: FrameFlags) -> bool {
diff --git a/rust/crates/wasmrs/src/frames/mod.rs b/rust/crates/wasmrs/src/frames/mod.rs
index 3c2bd0b..04bc8b8 100644
--- a/rust/crates/wasmrs/src/frames/mod.rs
+++ b/rust/crates/wasmrs/src/frames/mod.rs
@@ -12,7 +12,7 @@ pub(crate) mod request_payload;
 
 use bytes::Bytes;
 
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take};
 use crate::Error;
 
 use self::f_cancel::Cancel;
@@ -301,7 +301,7 @@ impl Payload {
       return Err(crate::Error::MetadataNotFound);
     }
     let bytes = self.metadata.as_ref().unwrap();
-    let index = from_u32_bytes(&bytes[0..4]);
+    let index = from_u32_bytes(bytes.get(0..4).ok_or(Error::Incomplete)?);
 
     Ok(Metadata { index })
   }
@@ -390,15 +390,14 @@ impl Frame {
 
   /// Decode [Bytes] into a [Frame].
   pub fn decode(mut bytes: Bytes) -> Result<Frame, (u32, Error)> {
-    let header = FrameHeader::from_bytes(bytes.split_to(Frame::LEN_HEADER));
+    let header = FrameHeader::from_bytes(take(&mut bytes, Frame::LEN_HEADER).map_err(|e| (0, e))?);
     let stream_id = header.stream_id();
     Self::_decode(header, bytes).map_err(|e| (stream_id, e))
   }
 
   pub(crate) fn _decode(header: FrameHeader, buffer: Bytes) -> Result<Frame, Error> {
-    let frame = match header.frame_type() {
-      FrameType::Reserved => todo!(),
-      FrameType::Setup => todo!(),
+    let frame_type = header.known_type().ok_or(Error::WrongType)?;
+    let frame = match frame_type {
       FrameType::RequestResponse => {
         Frame::RequestResponse(f_request_response::RequestResponse::decode_frame(&header, buffer)?)
       }
@@ -413,8 +412,7 @@ impl Frame {
       }),
       FrameType::Payload => Frame::PayloadFrame(f_payload::PayloadFrame::decode_frame(&header, buffer)?),
       FrameType::Err => Frame::ErrorFrame(f_error::ErrorFrame::decode_frame(&header, buffer)?),
-      FrameType::Ext => todo!(),
-      _ => unreachable!(),
+      _ => return Err(Error::WrongType),
     };
     Ok(frame)
   }
diff --git a/rust/crates/wasmrs/src/frames/request_payload.rs b/rust/crates/wasmrs/src/frames/request_payload.rs
index 034744d..53e051b 100644
--- a/rust/crates/wasmrs/src/frames/request_payload.rs
+++ b/rust/crates/wasmrs/src/frames/request_payload.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameFlags, FrameHeader, FrameType, RSocketFlags};
-use crate::util::{from_u24_bytes, from_u32_bytes, to_u24_bytes};
+use crate::util::{from_u24_bytes, from_u32_bytes, take, to_u24_bytes};
 use crate::{Frame, Payload};
 
 #[derive()]
@@ -57,14 +57,14 @@ impl RequestPayload {
     let frame_type = header.frame_type();
 
     let initial_n = if Self::is_multi(frame_type) {
-      from_u32_bytes(&buffer.split_to(4))
+      from_u32_bytes(&take(&mut buffer, 4)?)
     } else {
       0
     };
 
     let metadata = if header.has_metadata() {
-      let metadata_len = from_u24_bytes(&buffer.split_to(3)) as usize;
-      buffer.split_to(metadata_len)
+      let metadata_len = from_u24_bytes(&take(&mut buffer, 3)?) as usize;
+      take(&mut buffer, metadata_len)?
     } else {
       Bytes::new()
     };
diff --git a/rust/crates/wasmrs/src/operations.rs b/rust/crates/wasmrs/src/operations.rs
index e4d5567..ac33c11 100644
--- a/rust/crates/wasmrs/src/operations.rs
+++ b/rust/crates/wasmrs/src/operations.rs
@@ -1,6 +1,6 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
-use crate::util::{from_u16_bytes, from_u32_bytes};
+use crate::util::{from_u16_bytes, from_u32_bytes, take};
 
 /*
 WasmRS operations list header
@@ -49,14 +49,15 @@ pub enum OperationType {
   RequestChannel,
 }
 
-impl From<u8> for OperationType {
-  fn from(v: u8) -> Self {
+impl TryFrom<u8> for OperationType {
+  type Error = Error;
+  fn try_from(v: u8) -> Result<Self, Error> {
     match v {
-      1 => Self::RequestResponse,
-      2 => Self::RequestFnF,
-      3 => Self::RequestStream,
-      4 => Self::RequestChannel,
-      _ => unreachable!("Bad Operation Type {}", v),
+      1 => Ok(Self::RequestResponse),
+      2 => Ok(Self::RequestFnF),
+      3 => Ok(Self::RequestStream),
+      4 => Ok(Self::RequestChannel),
+      _ => Err(Error::OperationType),
     }
   }
 }
@@ -77,6 +78,8 @@ pub enum Error {
   Magic,
   Version,
   Utf8String,
+  OperationType,
+  Incomplete,
 }
 
 impl std::error::Error for Error {}
@@ -86,6 +89,8 @@ impl std::fmt::Display for Error {
       Error::Magic => "Bad magic bytes",
       Error::Version => "Bad version",
       Error::Utf8String => "Could not convert bytes to UTF-8 String",
+      Error::OperationType => "Bad operation type",
+      Error::Incomplete => "Incomplete operation list",
     })
   }
 }
@@ -95,6 +100,12 @@ impl From<std::string::FromUtf8Error> for Error {
   }
 }
 
+impl From<crate::Error> for Error {
+  fn from(_: crate::Error) -> Self {
+    Self::Incomplete
+  }
+}
+
 #[derive(Debug, Clone)]
 /// An operation record.
 pub struct Operation {
@@ -203,11 +214,11 @@ impl OperationList {
 
   /// Decode bytes into an Operation List.
   pub fn decode(mut buf: Bytes) -> Result<Self, Error> {
-    let magic = buf.split_to(4);
+    let magic = take(&mut buf, 4)?;
     if magic != WASMRS_MAGIC.as_slice() {
       return Err(Error::Magic);
     }
-    let version = from_u16_bytes(&buf.split_to(2));
+    let version = from_u16_bytes(&take(&mut buf, 2)?);
     match version {
       1 => Self::decode_v1(buf),
       _ => Err(Error::Version),
@@ -215,19 +226,19 @@ impl OperationList {
   }
 
   fn decode_v1(mut buf: Bytes) -> Result<Self, Error> {
-    let num_ops = from_u32_bytes(&buf.split_to(4));
+    let num_ops = from_u32_bytes(&take(&mut buf, 4)?);
     let mut imports = Vec::new();
     let mut exports = Vec::new();
     for _ in 0..num_ops {
-      let kind = buf.split_to(1)[0];
-      let kind: OperationType = kind.into();
-      let dir = buf.split_to(1)[0];
-      let index = from_u32_bytes(&buf.split_to(4));
-      let ns_len = from_u16_bytes(&buf.split_to(2));
-      let namespace = String::from_utf8(buf.split_to(ns_len as _).to_vec())?;
-      let op_len = from_u16_bytes(&buf.split_to(2));
-      let operation = String::from_utf8(buf.split_to(op_len as _).to_vec())?;
-      let _reserved_len = from_u16_bytes(&buf.split_to(2));
+      let kind = take(&mut buf, 1)?[0];
+      let kind: OperationType = kind.try_into()?;
+      let dir = take(&mut buf, 1)?[0];
+      let index = from_u32_bytes(&take(&mut buf, 4)?);
+      let ns_len = from_u16_bytes(&take(&mut buf, 2)?);
+      let namespace = String::from_utf8(take(&mut buf, ns_len as usize)?.to_vec())?;
+      let op_len = from_u16_bytes(&take(&mut buf, 2)?);
+      let operation = String::from_utf8(take(&mut buf, op_len as usize)?.to_vec())?;
+      let _reserved_len = from_u16_bytes(&take(&mut buf, 2)?);
       let op = Operation {
         index,
         kind,
diff --git a/rust/crates/wasmrs/src/util.rs b/rust/crates/wasmrs/src/util.rs
index 21ea618..3b53ff0 100644
--- a/rust/crates/wasmrs/src/util.rs
+++ b/rust/crates/wasmrs/src/util.rs
@@ -2,6 +2,16 @@ use std::io::Read;
 
 use bytes::{BufMut, Bytes, BytesMut};
 
+use crate::Error;
+
+/// Split off the first `len` bytes, if there are that many.
+pub(crate) fn take(bytes: &mut Bytes, len: usize) -> Result<Bytes, Error> {
+  if bytes.len() < len {
+    return Err(Error::Incomplete);
+  }
+  Ok(bytes.split_to(len))
+}
+
 #[must_use]
 pub(crate) fn from_u32_bytes(bytes: &[u8]) -> u32 {
   assert!(bytes.len() == 4, "Need 4 bytes to convert to u32");
-- 
2.43.0


From e971b5ff8cd85dc1c4afd1ccdd88c36509d8bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 51/51] fix: skip the reserved bytes of an operation in the
 Rust decoder

---
 rust/crates/wasmrs/src/operations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/crates/wasmrs/src/operations.rs b/rust/crates/wasmrs/src/operations.rs
index ac33c11..4376600 100644
--- a/rust/crates/wasmrs/src/operations.rs
+++ b/rust/crates/wasmrs/src/operations.rs
@@ -238,7 +238,8 @@ impl OperationList {
       let namespace = String::from_utf8(take(&mut buf, ns_len as usize)?.to_vec())?;
       let op_len = from_u16_bytes(&take(&mut buf, 2)?);
       let operation = String::from_utf8(take(&mut buf, op_len as usize)?.to_vec())?;
-      let _reserved_len = from_u16_bytes(&take(&mut buf, 2)?);
+      let reserved_len = from_u16_bytes(&take(&mut buf, 2)?);
+      let _reserved = take(&mut buf, reserved_len as usize)?;
       let op = Operation {
         index,
         kind,
-- 
2.43.0

