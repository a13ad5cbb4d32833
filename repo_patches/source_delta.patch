From 25ed15281fe6fe69abba3b7f14e4bcfdaa7136d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 01/75] fix: return malformed track event errors instead of
 panicking

---
 midi/MTrk.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 869730a..c016fcd 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -136,8 +136,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 		}
 
 		e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...)
+		if err != nil {
+			return nil, err
+		}
 
-		return events.NewEvent(e), err
+		return events.NewEvent(e), nil
 	}
 
 	// ... SysEx event
@@ -184,8 +187,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 	}
 
 	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
+	if err != nil {
+		return nil, err
+	}
 
 	ctx.RunningStatus = status
 
-	return events.NewEvent(e), err
+	return events.NewEvent(e), nil
 }
-- 
2.43.0


From 98450681f219f8efc62067a682be10149f9b7715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:33 +0000
Subject: [PATCH 02/75] fix: read chunks without allocating the (untrusted)
 chunk length up front

A chunk header that claims up to 4GB no longer allocates 4GB and a file that
ends immediately after a chunk header is reported as truncated rather than
silently accepted.
---
 encoding/midi/decoder.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/encoding/midi/decoder.go b/encoding/midi/decoder.go
index 8dad338..3c44646 100644
--- a/encoding/midi/decoder.go
+++ b/encoding/midi/decoder.go
@@ -1,6 +1,7 @@
 package midifile
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -88,11 +89,15 @@ func (r *chunker) next() ([]byte, error) {
 	}
 
 	N := binary.BigEndian.Uint32(buffer[4:])
-	chunk := make([]byte, N)
 
-	if _, err := io.ReadFull(r.reader, chunk); err != nil {
+	// ... the chunk length is untrusted so only allocate for what is actually in the file
+	var chunk bytes.Buffer
+
+	if _, err := io.CopyN(&chunk, r.reader, int64(N)); errors.Is(err, io.EOF) {
+		return nil, io.ErrUnexpectedEOF
+	} else if err != nil {
 		return nil, err
 	}
 
-	return append(buffer, chunk...), nil
+	return append(buffer, chunk.Bytes()...), nil
 }
-- 
2.43.0


From 2c813f71f23c621bfde5213114ec7e6d1d7f6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:34 +0000
Subject: [PATCH 03/75] fix: read variable length fields without allocating the
 (untrusted) length up front

---
 midi/events/event.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi/events/event.go b/midi/events/event.go
index 4186e47..5fd5e06 100644
--- a/midi/events/event.go
+++ b/midi/events/event.go
@@ -128,13 +128,13 @@ func VLF(r io.ByteReader) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, N)
+	bytes := []byte{}
 
-	for i := 0; i < int(N); i++ {
+	for i := uint32(0); i < N; i++ {
 		if b, err := r.ReadByte(); err != nil {
 			return nil, err
 		} else {
-			bytes[i] = b
+			bytes = append(bytes, b)
 		}
 	}
 
-- 
2.43.0


From a540337858b372e21de25ba519be67a11d60b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:36 +0000
Subject: [PATCH 04/75] fix: report a track that ends in the middle of an event
 as truncated

EOF part way through an event was treated as the end of the track and the
incomplete event was silently discarded.
---
 midi/MTrk.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index c016fcd..af18b77 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 
@@ -90,7 +91,12 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 		}
 	}
 
-	if err != io.EOF {
+	// ... EOF at an event boundary is the end of the track
+	if err != errEndOfTrack {
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		}
+
 		return err
 	}
 
@@ -102,12 +108,19 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 	return nil
 }
 
+// Returned by parse when there are no more events in the track.
+var errEndOfTrack = errors.New("end of track")
+
 func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, error) {
 	rr := reader{
 		reader: r,
 		buffer: &bytes.Buffer{},
 	}
 
+	if _, err := rr.peek(); err == io.EOF {
+		return nil, errEndOfTrack
+	}
+
 	delta, err := events.VLQ(rr)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2b206d294f9d6beb0908cb93b29a994e8c42c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:37 +0000
Subject: [PATCH 05/75] fix: accumulate event ticks as uint64 so that long
 tracks do not wrap around

---
 midi/MTrk.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index af18b77..dd0dd43 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -46,14 +46,14 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 
 	eventlist := make([]*events.Event, 0)
 	r := bufio.NewReader(bytes.NewReader(data[8:]))
-	tick := uint32(0)
+	tick := uint64(0)
 	err := error(nil)
 	var e *events.Event = nil
 
 	for err == nil {
 		e, err = parse(r, tick, chunk.Context)
 		if err == nil && e != nil {
-			tick += e.Delta()
+			tick += uint64(e.Delta())
 			eventlist = append(eventlist, e)
 
 			switch k := e.Event.(type) {
@@ -111,7 +111,7 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 // Returned by parse when there are no more events in the track.
 var errEndOfTrack = errors.New("end of track")
 
-func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, error) {
+func parse(r *bufio.Reader, tick uint64, ctx *context.Context) (*events.Event, error) {
 	rr := reader{
 		reader: r,
 		buffer: &bytes.Buffer{},
@@ -148,7 +148,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 			return nil, err
 		}
 
-		e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...)
+		e, err := metaevent.Parse(tick+uint64(delta), rr.Bytes()...)
 		if err != nil {
 			return nil, err
 		}
@@ -167,7 +167,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 				return nil, fmt.Errorf("Invalid SysExMessage event data: F0 start byte without terminating F7")
 			}
 
-			if e, err := sysex.Parse(uint64(tick)+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
+			if e, err := sysex.Parse(tick+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
 				return nil, err
 			} else {
 				bytes := rr.Bytes()
@@ -199,7 +199,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 		}
 	}
 
-	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
+	e, err := midievent.Parse(tick+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 9a7e7eb7220b30186aa8ee49bc225fc461af9aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:08 +0000
Subject: [PATCH 06/75] fix: return an error instead of panicking for event
 data shorter than its length

---
 midi/events/meta/metaevent.go | 2 ++
 midi/events/midi/midievent.go | 2 ++
 midi/events/sysex/sysex.go    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 6326ea4..4f31ff1 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -181,6 +181,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data - expected %v bytes, got %v", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/midi/midievent.go b/midi/events/midi/midievent.go
index a741740..d3785bc 100644
--- a/midi/events/midi/midievent.go
+++ b/midi/events/midi/midievent.go
@@ -137,6 +137,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data - expected %v bytes, got %v", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/sysex/sysex.go b/midi/events/sysex/sysex.go
index 48b2432..5771cf5 100644
--- a/midi/events/sysex/sysex.go
+++ b/midi/events/sysex/sysex.go
@@ -125,6 +125,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data - expected %v bytes, got %v", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
-- 
2.43.0


From f818a537274fcd3f9fed10c147b2cd1ecd2df757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:10 +0000
Subject: [PATCH 07/75] fix: reject variable length quantities longer than four
 bytes

Overlong quantities silently wrapped around to an unrelated 32 bit value.
---
 midi/events/binary.go         | 6 +++++-
 midi/events/event.go          | 6 +++---
 midi/events/meta/metaevent.go | 6 +++++-
 midi/events/midi/midievent.go | 6 +++++-
 midi/events/sysex/sysex.go    | 6 +++++-
 midi/lib/delta.go             | 6 +++---
 6 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/midi/events/binary.go b/midi/events/binary.go
index d05cac9..d67e461 100644
--- a/midi/events/binary.go
+++ b/midi/events/binary.go
@@ -130,6 +130,10 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 	vlq := uint32(0)
 
 	for i, b := range bytes {
+		if i >= 4 {
+			break
+		}
+
 		vlq <<= 7
 		vlq += uint32(b & 0x7f)
 
@@ -138,7 +142,7 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 		}
 	}
 
-	return 0, nil, fmt.Errorf("Invalid event 'delta'")
+	return 0, nil, fmt.Errorf("Invalid variable length quantity")
 }
 
 func equals[T lib.TEventType](b byte, t T) bool {
diff --git a/midi/events/event.go b/midi/events/event.go
index 5fd5e06..899c8c1 100644
--- a/midi/events/event.go
+++ b/midi/events/event.go
@@ -144,7 +144,7 @@ func VLF(r io.ByteReader) ([]byte, error) {
 func VLQ(r io.ByteReader) (uint32, error) {
 	vlq := uint32(0)
 
-	for {
+	for i := 0; i < 4; i++ {
 		b, err := r.ReadByte()
 		if err != nil {
 			return 0, err
@@ -154,9 +154,9 @@ func VLQ(r io.ByteReader) (uint32, error) {
 		vlq += uint32(b & 0x7f)
 
 		if b&0x80 == 0 {
-			break
+			return vlq, nil
 		}
 	}
 
-	return vlq, nil
+	return 0, fmt.Errorf("Invalid variable length quantity (longer than 4 bytes)")
 }
diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 4f31ff1..2c31baa 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -167,6 +167,10 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 	vlq := uint32(0)
 
 	for i, b := range bytes {
+		if i >= 4 {
+			break
+		}
+
 		vlq <<= 7
 		vlq += uint32(b & 0x7f)
 
@@ -175,7 +179,7 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 		}
 	}
 
-	return 0, nil, fmt.Errorf("Invalid event 'delta'")
+	return 0, nil, fmt.Errorf("Invalid variable length quantity")
 }
 
 func vlf(bytes []byte) ([]byte, error) {
diff --git a/midi/events/midi/midievent.go b/midi/events/midi/midievent.go
index d3785bc..7f3fc1f 100644
--- a/midi/events/midi/midievent.go
+++ b/midi/events/midi/midievent.go
@@ -123,6 +123,10 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 	vlq := uint32(0)
 
 	for i, b := range bytes {
+		if i >= 4 {
+			break
+		}
+
 		vlq <<= 7
 		vlq += uint32(b & 0x7f)
 
@@ -131,7 +135,7 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 		}
 	}
 
-	return 0, nil, fmt.Errorf("Invalid event 'delta'")
+	return 0, nil, fmt.Errorf("Invalid variable length quantity")
 }
 
 func vlf(bytes []byte) ([]byte, error) {
diff --git a/midi/events/sysex/sysex.go b/midi/events/sysex/sysex.go
index 5771cf5..e9381c3 100644
--- a/midi/events/sysex/sysex.go
+++ b/midi/events/sysex/sysex.go
@@ -111,6 +111,10 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 	vlq := uint32(0)
 
 	for i, b := range bytes {
+		if i >= 4 {
+			break
+		}
+
 		vlq <<= 7
 		vlq += uint32(b & 0x7f)
 
@@ -119,7 +123,7 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 		}
 	}
 
-	return 0, nil, fmt.Errorf("Invalid event 'delta'")
+	return 0, nil, fmt.Errorf("Invalid variable length quantity")
 }
 
 func vlf(bytes []byte) ([]byte, error) {
diff --git a/midi/lib/delta.go b/midi/lib/delta.go
index 3402db5..587816b 100644
--- a/midi/lib/delta.go
+++ b/midi/lib/delta.go
@@ -23,7 +23,7 @@ func ParseDelta(s string) (Delta, error) {
 func DecodeDelta(r io.ByteReader) (Delta, error) {
 	vlq := uint32(0)
 
-	for {
+	for i := 0; i < 4; i++ {
 		b, err := r.ReadByte()
 		if err != nil {
 			return 0, err
@@ -33,11 +33,11 @@ func DecodeDelta(r io.ByteReader) (Delta, error) {
 		vlq += uint32(b & 0x7f)
 
 		if b&0x80 == 0 {
-			break
+			return Delta(vlq), nil
 		}
 	}
 
-	return Delta(vlq), nil
+	return 0, fmt.Errorf("invalid delta (longer than 4 bytes)")
 }
 
 func (d Delta) MarshalBinary() ([]byte, error) {
-- 
2.43.0


From 03a7ae77e256613807ed68f249e927bc957c2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:12 +0000
Subject: [PATCH 08/75] fix: reject delta times that cannot be represented as a
 variable length quantity

A delta greater than 0x0fffffff was encoded as a corrupt five byte sequence.
---
 midi/lib/delta.go | 17 +++--------------
 midi/lib/types.go | 11 +++++++++++
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/midi/lib/delta.go b/midi/lib/delta.go
index 587816b..200f86d 100644
--- a/midi/lib/delta.go
+++ b/midi/lib/delta.go
@@ -15,6 +15,8 @@ func (d Delta) String() string {
 func ParseDelta(s string) (Delta, error) {
 	if delta, err := strconv.ParseUint(s, 10, 32); err != nil {
 		return 0, err
+	} else if delta > uint64(MaxVLQ) {
+		return 0, fmt.Errorf("invalid delta (%v) - expected a value not more than %v", delta, uint32(MaxVLQ))
 	} else {
 		return Delta(delta), nil
 	}
@@ -41,18 +43,5 @@ func DecodeDelta(r io.ByteReader) (Delta, error) {
 }
 
 func (d Delta) MarshalBinary() ([]byte, error) {
-	buffer := []byte{0x00, 0x80, 0x80, 0x80, 0x00}
-	b := d
-
-	for i := 4; i > 0; i-- {
-		buffer[i] |= byte(b & 0x7f)
-		if b >>= 7; b == 0 {
-			return buffer[i:], nil
-		}
-	}
-
-	buffer[1] |= 0x80
-	buffer[0] = byte(b & 0x7f)
-
-	return buffer, nil
+	return VLQ(d).MarshalBinary()
 }
diff --git a/midi/lib/types.go b/midi/lib/types.go
index 1f8b8ba..2cae529 100644
--- a/midi/lib/types.go
+++ b/midi/lib/types.go
@@ -1,8 +1,19 @@
 package lib
 
+import (
+	"fmt"
+)
+
+// The largest value that can be represented as a (4 byte) variable length quantity.
+const MaxVLQ VLQ = 0x0fffffff
+
 type VLQ uint32
 
 func (v VLQ) MarshalBinary() ([]byte, error) {
+	if v > MaxVLQ {
+		return nil, fmt.Errorf("invalid variable length quantity (%v) - expected a value not more than %v", uint32(v), uint32(MaxVLQ))
+	}
+
 	return vlq2bin(uint32(v)), nil
 }
 
-- 
2.43.0


From c3703c8756245bb65c4eeb1be40c291fbdaf31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:56 +0000
Subject: [PATCH 09/75] fix: encode the length of text and sequencer specific
 META events as a VLQ

Events with 128 or more bytes of data were encoded with a corrupt length.
---
 midi/events/meta/copyright.go          |  8 ++++++--
 midi/events/meta/cue_point.go          |  8 ++++++--
 midi/events/meta/device_name.go        |  8 ++++++--
 midi/events/meta/instrument_name.go    |  8 ++++++--
 midi/events/meta/lyric.go              |  8 ++++++--
 midi/events/meta/marker.go             |  8 ++++++--
 midi/events/meta/program_name.go       |  8 ++++++--
 midi/events/meta/sequencer_specific.go | 17 +++++++++++------
 midi/events/meta/text.go               |  8 ++++++--
 9 files changed, 59 insertions(+), 22 deletions(-)

diff --git a/midi/events/meta/copyright.go b/midi/events/meta/copyright.go
index c04a9ff..8293ca6 100644
--- a/midi/events/meta/copyright.go
+++ b/midi/events/meta/copyright.go
@@ -35,12 +35,16 @@ func (e *Copyright) unmarshal(tick uint64, delta lib.Delta, status byte, data []
 }
 
 func (e Copyright) MarshalBinary() (encoded []byte, err error) {
+	text, err := lib.VLF(e.Copyright).MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(e.Status),
 		byte(e.Type),
-		byte(len(e.Copyright)),
 	},
-		[]byte(e.Copyright)...), nil
+		text...), nil
 }
 
 func (e *Copyright) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/cue_point.go b/midi/events/meta/cue_point.go
index 697737a..aa45d76 100644
--- a/midi/events/meta/cue_point.go
+++ b/midi/events/meta/cue_point.go
@@ -36,12 +36,16 @@ func (e *CuePoint) unmarshal(tick uint64, delta lib.Delta, status byte, data []b
 }
 
 func (e CuePoint) MarshalBinary() (encoded []byte, err error) {
+	text, err := lib.VLF(e.CuePoint).MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(e.Status),
 		byte(e.Type),
-		byte(len(e.CuePoint)),
 	},
-		[]byte(e.CuePoint)...), nil
+		text...), nil
 }
 
 func (e *CuePoint) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/device_name.go b/midi/events/meta/device_name.go
index 7dfe32c..118cd7d 100644
--- a/midi/events/meta/device_name.go
+++ b/midi/events/meta/device_name.go
@@ -36,12 +36,16 @@ func (e *DeviceName) unmarshal(tick uint64, delta lib.Delta, status byte, data [
 }
 
 func (d DeviceName) MarshalBinary() (encoded []byte, err error) {
+	text, err := lib.VLF(d.Name).MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(d.Status),
 		byte(d.Type),
-		byte(len(d.Name)),
 	},
-		[]byte(d.Name)...), nil
+		text...), nil
 }
 
 func (e *DeviceName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/instrument_name.go b/midi/events/meta/instrument_name.go
index 5f61f73..ac2232f 100644
--- a/midi/events/meta/instrument_name.go
+++ b/midi/events/meta/instrument_name.go
@@ -36,12 +36,16 @@ func (e *InstrumentName) unmarshal(tick uint64, delta lib.Delta, status byte, da
 }
 
 func (e InstrumentName) MarshalBinary() (encoded []byte, err error) {
+	text, err := lib.VLF(e.Name).MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(e.Status),
 		byte(e.Type),
-		byte(len(e.Name)),
 	},
-		[]byte(e.Name)...), nil
+		text...), nil
 }
 
 func (e *InstrumentName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/lyric.go b/midi/events/meta/lyric.go
index b2b80b9..afe8cca 100644
--- a/midi/events/meta/lyric.go
+++ b/midi/events/meta/lyric.go
@@ -36,12 +36,16 @@ func (e *Lyric) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte
 }
 
 func (l Lyric) MarshalBinary() (encoded []byte, err error) {
+	text, err := lib.VLF(l.Lyric).MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(l.Status),
 		byte(l.Type),
-		byte(len(l.Lyric)),
 	},
-		[]byte(l.Lyric)...), nil
+		text...), nil
 }
 
 func (e *Lyric) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/marker.go b/midi/events/meta/marker.go
index 568a847..8a20d9a 100644
--- a/midi/events/meta/marker.go
+++ b/midi/events/meta/marker.go
@@ -36,12 +36,16 @@ func (e *Marker) unmarshal(tick uint64, delta lib.Delta, status byte, data []byt
 }
 
 func (m Marker) MarshalBinary() (encoded []byte, err error) {
+	text, err := lib.VLF(m.Marker).MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(m.Status),
 		byte(m.Type),
-		byte(len(m.Marker)),
 	},
-		[]byte(m.Marker)...), nil
+		text...), nil
 }
 
 func (e *Marker) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/program_name.go b/midi/events/meta/program_name.go
index e2fb57c..47d6fcd 100644
--- a/midi/events/meta/program_name.go
+++ b/midi/events/meta/program_name.go
@@ -36,12 +36,16 @@ func (e *ProgramName) unmarshal(tick uint64, delta lib.Delta, status byte, data
 }
 
 func (e ProgramName) MarshalBinary() (encoded []byte, err error) {
+	text, err := lib.VLF(e.Name).MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(e.Status),
 		byte(e.Type),
-		byte(len(e.Name)),
 	},
-		[]byte(e.Name)...), nil
+		text...), nil
 }
 
 func (e *ProgramName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index d052294..7c3f05c 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -46,15 +46,20 @@ func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status
 
 // FIXME encode as VLF
 func (e SequencerSpecificEvent) MarshalBinary() (encoded []byte, err error) {
-	b := []byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Manufacturer.ID) + len(e.Data))}
-
+	b := []byte{}
 	b = append(b, e.Manufacturer.ID...)
 	b = append(b, e.Data...)
 
-	return b, nil
+	data, err := lib.VLF(b).MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+
+	return append([]byte{
+		byte(e.Status),
+		byte(e.Type),
+	},
+		data...), nil
 }
 
 func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/text.go b/midi/events/meta/text.go
index 05be373..292b3dd 100644
--- a/midi/events/meta/text.go
+++ b/midi/events/meta/text.go
@@ -37,12 +37,16 @@ func (e *Text) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte,
 }
 
 func (e Text) MarshalBinary() (encoded []byte, err error) {
+	text, err := lib.VLF(e.Text).MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+
 	return append([]byte{
 		byte(e.Status),
 		byte(e.Type),
-		byte(len(e.Text)),
 	},
-		[]byte(e.Text)...), nil
+		text...), nil
 }
 
 func (e *Text) UnmarshalBinary(bytes []byte) error {
-- 
2.43.0


From c73a64b785ada84dedb64c6eb2e8f1ac9a396855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:58 +0000
Subject: [PATCH 10/75] fix: correct the manufacturer ID for universal RealTime
 SysEx messages (7F)

---
 midi/lib/manufacturer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index f89c662..6fc548d 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -154,7 +154,7 @@ var manufacturers = map[string]Manufacturer{
 
 	"7D": Manufacturer{ID: []byte{0x7d}, Region: "Special Purpose", Name: "Non-Commercial"},
 	"7E": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "Non-RealTime Extensions"},
-	"7F": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "RealTime Extensions"},
+	"7F": Manufacturer{ID: []byte{0x7f}, Region: "Special Purpose", Name: "RealTime Extensions"},
 
 	// American
 	"01": Manufacturer{ID: []byte{0x01}, Region: "American", Name: "Sequential Circuits"},
-- 
2.43.0


From 45fda01bfd304034a9bfe1d173ee659ec4a1f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:00 +0000
Subject: [PATCH 11/75] fix: return an error for a SequencerSpecificEvent or
 SequenceNumber with too little data

Events without a complete manufacturer ID (or sequence number) caused an out of range panic.
---
 midi/events/meta/sequence_number.go    | 2 ++
 midi/events/meta/sequencer_specific.go | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/midi/events/meta/sequence_number.go b/midi/events/meta/sequence_number.go
index 3b26242..e988672 100644
--- a/midi/events/meta/sequence_number.go
+++ b/midi/events/meta/sequence_number.go
@@ -63,6 +63,8 @@ func (e *SequenceNumber) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequenceNumber, remaining[1])
 	} else if v, err := vlf(remaining[2:]); err != nil {
 		return err
+	} else if len(v) != 2 {
+		return fmt.Errorf("Invalid SequenceNumber length (%d): expected '2'", len(v))
 	} else {
 		*e = MakeSequenceNumber(0, delta, binary.BigEndian.Uint16(v), bytes...)
 	}
diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index 7c3f05c..005c763 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -31,6 +31,10 @@ func MakeSequencerSpecificEvent(tick uint64, delta lib.Delta, manufacturer lib.M
 }
 
 func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte, bytes ...byte) error {
+	if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {
+		return fmt.Errorf("Invalid SequencerSpecificEvent length (%d): missing manufacturer ID", len(data))
+	}
+
 	id := data[0:1]
 	d := data[1:]
 
@@ -73,7 +77,7 @@ func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequencerSpecificEvent, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 {
+	} else if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {
 		return fmt.Errorf("Invalid SequencerSpecificEvent channel data")
 	} else {
 		id := data[0:1]
-- 
2.43.0


From f0c92f5c2deee3ed61defebe443397acb178646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 12/75] fix: retain the terminating F7 of a SysEx continuation
 message

The decoder stripped the F7 but did not set the 'end' flag so that re-encoding the
event (e.g. the transpose command) produced an unterminated SysEx message.
---
 midi/events/sysex/continuation_message.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/midi/events/sysex/continuation_message.go b/midi/events/sysex/continuation_message.go
index 738a692..f7ce3c9 100644
--- a/midi/events/sysex/continuation_message.go
+++ b/midi/events/sysex/continuation_message.go
@@ -47,16 +47,15 @@ func (e *SysExContinuationMessage) unmarshal(tick uint64, delta uint32, status l
 		return fmt.Errorf("Invalid SysExContinuationMessage event type (%02x): expected 'F7'", status)
 	}
 
-	d := data
+	*e = MakeSysExContinuationMessage(tick, delta, data, bytes...)
+
 	if len(data) > 0 {
-		terminator := data[len(d)-1]
+		terminator := data[len(data)-1]
 		if terminator == 0xf7 {
-			d = data[:len(d)-1]
+			*e = MakeSysExContinuationEndMessage(tick, delta, data[:len(data)-1], bytes...)
 		}
 	}
 
-	*e = MakeSysExContinuationMessage(tick, delta, d, bytes...)
-
 	return nil
 }
 
@@ -91,16 +90,15 @@ func (e *SysExContinuationMessage) UnmarshalBinary(bytes []byte) error {
 	} else if data, err := vlf(remaining[1:]); err != nil {
 		return err
 	} else {
-		d := data
+		*e = MakeSysExContinuationMessage(0, uint32(delta), data, bytes...)
+
 		if len(data) > 0 {
-			terminator := data[len(d)-1]
+			terminator := data[len(data)-1]
 			if terminator == 0xf7 {
-				d = data[:len(d)-1]
+				*e = MakeSysExContinuationEndMessage(0, uint32(delta), data[:len(data)-1], bytes...)
 				// ctx.Casio = false
 			}
 		}
-
-		*e = MakeSysExContinuationMessage(0, uint32(delta), d, bytes...)
 	}
 
 	return nil
-- 
2.43.0


From 8f1ddbce90e536e0c53d78b1178ca7986c140bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:27 +0000
Subject: [PATCH 13/75] fix: return an error for a SysEx message without a
 manufacturer ID

A SysEx message with no data, or with only a manufacturer ID, caused an out of range panic.
---
 midi/events/sysex/message.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index fff7472..ba3796c 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -54,11 +54,14 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 		return fmt.Errorf("Invalid SysExMessage event data (0 bytes")
 	}
 
-	id := data[0:1]
+	id, d, err := split(data)
+	if err != nil {
+		return err
+	}
+
 	manufacturer := lib.LookupManufacturer(id)
-	d := data[1:]
 
-	if d[len(d)-1] != 0xf7 {
+	if data[len(data)-1] != 0xf7 {
 		*e = MakeSysExMessage(tick, delta, manufacturer, d, bytes...)
 	} else {
 		*e = MakeSysExSingleMessage(tick, delta, manufacturer, d[:len(d)-1], bytes...)
@@ -67,6 +70,16 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 	return nil
 }
 
+// Splits the SysEx message data into the manufacturer ID and the message, validating that the data
+// includes a manufacturer ID.
+func split(data []byte) ([]byte, []byte, error) {
+	if len(data) == 0 || data[0] == 0xf7 {
+		return nil, nil, fmt.Errorf("Invalid SysExMessage event data (missing manufacturer ID)")
+	}
+
+	return data[0:1], data[1:], nil
+}
+
 func (e SysExMessage) MarshalBinary() ([]byte, error) {
 	status := byte(e.Status)
 
@@ -98,12 +111,12 @@ func (e *SysExMessage) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSysExMessage, remaining[0])
 	} else if data, err := vlf(remaining[1:]); err != nil {
 		return err
+	} else if id, d, err := split(data); err != nil {
+		return err
 	} else {
-		id := data[0:1]
 		manufacturer := lib.LookupManufacturer(id)
-		d := data[1:]
 
-		if d[len(d)-1] != 0xf7 {
+		if data[len(data)-1] != 0xf7 {
 			// ctx.Casio = true
 			*e = MakeSysExMessage(0, uint32(delta), manufacturer, d, bytes...)
 		} else {
-- 
2.43.0


From d7f431b7c6c85cbd64a645c860c15ad551c51287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:28 +0000
Subject: [PATCH 14/75] fix: decode three byte manufacturer IDs in SysEx
 messages

The first byte (00) of an extended manufacturer ID was decoded as an unknown one byte
manufacturer ID and the remainder of the ID as message data.
---
 midi/events/sysex/message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index ba3796c..459cc02 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -77,6 +77,10 @@ func split(data []byte) ([]byte, []byte, error) {
 		return nil, nil, fmt.Errorf("Invalid SysExMessage event data (missing manufacturer ID)")
 	}
 
+	if data[0] == 0x00 && len(data) >= 3 && data[1] != 0xf7 && data[2] != 0xf7 {
+		return data[0:3], data[3:], nil
+	}
+
 	return data[0:1], data[1:], nil
 }
 
-- 
2.43.0


From 127333bcec87baf60f1ec1879f1bb55fd728b721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:30 +0000
Subject: [PATCH 15/75] fix: terminate only the last packet of a multi-packet
 SysEx message

The assemblers terminated a SysEx message at the first packet followed by some other
(interleaved) event, did not terminate a SysEx message that is the last event of a track
and panicked for a track without any events.
---
 ops/assemble/assemble.go | 51 +++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/ops/assemble/assemble.go b/ops/assemble/assemble.go
index 01275c3..6948a48 100644
--- a/ops/assemble/assemble.go
+++ b/ops/assemble/assemble.go
@@ -4,6 +4,7 @@ import (
 	"io"
 
 	"github.com/transcriptaze/midiasm/midi"
+	"github.com/transcriptaze/midiasm/midi/events"
 	"github.com/transcriptaze/midiasm/midi/events/sysex"
 )
 
@@ -12,41 +13,47 @@ type Assembler interface {
 }
 
 func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
-	for ix := range mtrk.Events[1:] {
-		previous := mtrk.Events[ix]
-		event := mtrk.Events[ix+1]
-
-		if message, ok := previous.Event.(*sysex.SysExMessage); ok {
-			if _, ok := event.Event.(*sysex.SysExContinuationMessage); !ok {
+	for ix, e := range mtrk.Events {
+		switch message := e.Event.(type) {
+		case *sysex.SysExMessage:
+			if !continued(mtrk.Events[ix+1:]) {
 				message.Single = true
 			}
-		}
 
-		if message, ok := previous.Event.(sysex.SysExMessage); ok {
-			if _, ok := event.Event.(sysex.SysExContinuationMessage); !ok {
+		case sysex.SysExMessage:
+			if !continued(mtrk.Events[ix+1:]) {
 				message.Single = true
-				mtrk.Events[ix].Event = message
+				e.Event = message
 			}
-		}
-	}
-
-	for ix := range mtrk.Events[1:] {
-		previous := mtrk.Events[ix]
-		event := mtrk.Events[ix+1]
 
-		if message, ok := previous.Event.(*sysex.SysExContinuationMessage); ok {
-			if _, ok := event.Event.(*sysex.SysExContinuationMessage); !ok {
+		case *sysex.SysExContinuationMessage:
+			if !continued(mtrk.Events[ix+1:]) {
 				message.End = true
 			}
-		}
 
-		if message, ok := previous.Event.(sysex.SysExContinuationMessage); ok {
-			if _, ok := event.Event.(sysex.SysExContinuationMessage); !ok {
+		case sysex.SysExContinuationMessage:
+			if !continued(mtrk.Events[ix+1:]) {
 				message.End = true
-				mtrk.Events[ix].Event = message
+				e.Event = message
 			}
 		}
 	}
 
 	return mtrk, nil
 }
+
+// Returns true if the next SysEx event in the list is a continuation message. The packets of a SysEx
+// message may be interleaved with other events.
+func continued(list []*events.Event) bool {
+	for _, e := range list {
+		switch e.Event.(type) {
+		case *sysex.SysExContinuationMessage, sysex.SysExContinuationMessage:
+			return true
+
+		case *sysex.SysExMessage, sysex.SysExMessage, *sysex.SysExEscapeMessage, sysex.SysExEscapeMessage:
+			return false
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 58625eb3a67ad0206c372dcebb9b21aee88bcce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:44 +0000
Subject: [PATCH 16/75] fix: identify a text event by the first tag in the line

Events with content that includes the tag of another event (e.g. a lyric 'Tempo di valse') were
assembled as the other event or rejected.
---
 midi/events/text.go | 105 ++++++++++++++++++++++++++++++++------------
 1 file changed, 76 insertions(+), 29 deletions(-)

diff --git a/midi/events/text.go b/midi/events/text.go
index 2a9b639..c47828c 100644
--- a/midi/events/text.go
+++ b/midi/events/text.go
@@ -13,89 +13,89 @@ import (
 func (e *Event) UnmarshalText(text []byte) error {
 	s := string(text)
 
-	switch {
-	case strings.Contains(s, "SequenceNumber"):
+	switch tag(s) {
+	case "SequenceNumber":
 		return unmarshalText[metaevent.SequenceNumber](e, text)
 
-	case strings.Contains(s, "Text"):
+	case "Text":
 		return unmarshalText[metaevent.Text](e, text)
 
-	case strings.Contains(s, "Copyright"):
+	case "Copyright":
 		return unmarshalText[metaevent.Copyright](e, text)
 
-	case strings.Contains(s, "TrackName"):
+	case "TrackName":
 		return unmarshalText[metaevent.TrackName](e, text)
 
-	case strings.Contains(s, "InstrumentName"):
+	case "InstrumentName":
 		return unmarshalText[metaevent.InstrumentName](e, text)
 
-	case strings.Contains(s, "Lyric"):
+	case "Lyric":
 		return unmarshalText[metaevent.Lyric](e, text)
 
-	case strings.Contains(s, "Marker"):
+	case "Marker":
 		return unmarshalText[metaevent.Marker](e, text)
 
-	case strings.Contains(s, "CuePoint"):
+	case "CuePoint":
 		return unmarshalText[metaevent.CuePoint](e, text)
 
-	case strings.Contains(s, "ProgramName"):
+	case "ProgramName":
 		return unmarshalText[metaevent.ProgramName](e, text)
 
-	case strings.Contains(s, "DeviceName"):
+	case "DeviceName":
 		return unmarshalText[metaevent.DeviceName](e, text)
 
-	case strings.Contains(s, "MIDIChannelPrefix"):
+	case "MIDIChannelPrefix":
 		return unmarshalText[metaevent.MIDIChannelPrefix](e, text)
 
-	case strings.Contains(s, "MIDIPort"):
+	case "MIDIPort":
 		return unmarshalText[metaevent.MIDIPort](e, text)
 
-	case strings.Contains(s, "Tempo"):
+	case "Tempo":
 		return unmarshalText[metaevent.Tempo](e, text)
 
-	case strings.Contains(s, "TimeSignature"):
+	case "TimeSignature":
 		return unmarshalText[metaevent.TimeSignature](e, text)
 
-	case strings.Contains(s, "KeySignature"):
+	case "KeySignature":
 		return unmarshalText[metaevent.KeySignature](e, text)
 
-	case strings.Contains(s, "SMPTEOffset"):
+	case "SMPTEOffset":
 		return unmarshalText[metaevent.SMPTEOffset](e, text)
 
-	case strings.Contains(s, "EndOfTrack"):
+	case "EndOfTrack":
 		return unmarshalText[metaevent.EndOfTrack](e, text)
 
-	case strings.Contains(s, "SequencerSpecificEvent"):
+	case "SequencerSpecificEvent":
 		return unmarshalText[metaevent.SequencerSpecificEvent](e, text)
 
-	case strings.Contains(s, "NoteOff"):
+	case "NoteOff":
 		return unmarshalText[midievent.NoteOff](e, text)
 
-	case strings.Contains(s, "NoteOn"):
+	case "NoteOn":
 		return unmarshalText[midievent.NoteOn](e, text)
 
-	case strings.Contains(s, "PolyphonicPressure"):
+	case "PolyphonicPressure":
 		return unmarshalText[midievent.PolyphonicPressure](e, text)
 
-	case strings.Contains(s, "Controller"):
+	case "Controller":
 		return unmarshalText[midievent.Controller](e, text)
 
-	case strings.Contains(s, "ProgramChange"):
+	case "ProgramChange":
 		return unmarshalText[midievent.ProgramChange](e, text)
 
-	case strings.Contains(s, "ChannelPressure"):
+	case "ChannelPressure":
 		return unmarshalText[midievent.ChannelPressure](e, text)
 
-	case strings.Contains(s, "PitchBend"):
+	case "PitchBend":
 		return unmarshalText[midievent.PitchBend](e, text)
 
-	case strings.Contains(s, "SysExMessage"):
+	case "SysExMessage":
 		return unmarshalText[sysex.SysExMessage](e, text)
 
-	case strings.Contains(s, "SysExContinuation"):
+	case "SysExContinuation":
 		return unmarshalText[sysex.SysExContinuationMessage](e, text)
 
-	case strings.Contains(s, "SysExEscape"):
+	case "SysExEscape":
 		return unmarshalText[sysex.SysExEscapeMessage](e, text)
 
 	default:
@@ -103,6 +103,53 @@ func (e *Event) UnmarshalText(text []byte) error {
 	}
 }
 
+// Returns the event tag for a line of text i.e. the first tag in the line - the rest of the line is
+// the event content, which may well include the tag of some other event.
+func tag(s string) string {
+	tag := ""
+	ix := len(s)
+
+	for _, t := range tags {
+		if i := strings.Index(s, t); i >= 0 && i < ix {
+			tag = t
+			ix = i
+		}
+	}
+
+	return tag
+}
+
+var tags = []string{
+	"SequenceNumber",
+	"Text",
+	"Copyright",
+	"TrackName",
+	"InstrumentName",
+	"Lyric",
+	"Marker",
+	"CuePoint",
+	"ProgramName",
+	"DeviceName",
+	"MIDIChannelPrefix",
+	"MIDIPort",
+	"Tempo",
+	"TimeSignature",
+	"KeySignature",
+	"SMPTEOffset",
+	"EndOfTrack",
+	"SequencerSpecificEvent",
+	"NoteOff",
+	"NoteOn",
+	"PolyphonicPressure",
+	"Controller",
+	"ProgramChange",
+	"ChannelPressure",
+	"PitchBend",
+	"SysExMessage",
+	"SysExContinuation",
+	"SysExEscape",
+}
+
 func unmarshalText[
 	E TEvent,
 	P interface {
-- 
2.43.0


From fd8885e7a66054641bdc9686adb638261400a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:05 +0000
Subject: [PATCH 17/75] fix: release the track reader when the text assembler
 returns an error

The 'break' only exited the select so the goroutine blocked forever on the next line.
---
 ops/assemble/text.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 5d39a0e..e308006 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -180,15 +180,15 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 	}()
 
 	go func() {
+		defer close(lines)
+
 		for _, line := range chunk {
 			select {
 			case lines <- line:
 			case <-closed:
-				break
+				return
 			}
 		}
-
-		close(lines)
 	}()
 
 	// ... make MTrk
-- 
2.43.0


From 73c81032a13bc162e9e9f39419d501a5192dd118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:07 +0000
Subject: [PATCH 18/75] fix: do not treat comments and event content as MThd
 and MTrk chunks

A comment that mentions MThd caused a nil pointer panic and an event with text that includes
MThd or MTrk was assembled as the start of a new chunk.
---
 ops/assemble/text.go | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index e308006..92b91e9 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -34,10 +34,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 	for _, chunk := range chunks {
 		for _, line := range chunk {
 			switch {
-			case strings.HasPrefix(line, "%%"):
-				// comment - ignore
-
-			case strings.Contains(line, "MThd"):
+			case isMThd(line):
 				if mthd, err := a.parseMThd(chunk); err != nil {
 					return nil, err
 				} else {
@@ -46,9 +43,11 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 				break
 
-			case strings.Contains(line, "MTrk"):
+			case isMTrk(line):
 				if mtrk, err := a.parseMTrk(chunk); err != nil {
 					return nil, err
+				} else if smf.MThd == nil {
+					return nil, fmt.Errorf("missing MThd")
 				} else {
 					mtrk.TrackNumber = lib.TrackNumber(len(smf.Tracks))
 
@@ -72,6 +71,26 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 	}
 }
 
+func isMThd(line string) bool {
+	return isChunk(line, "MThd")
+}
+
+func isMTrk(line string) bool {
+	return isChunk(line, "MTrk")
+}
+
+// Returns true if a line is the start of a chunk i.e. it is not a comment and the chunk tag is
+// not just part of the content of an event.
+func isChunk(line string, tag string) bool {
+	if strings.HasPrefix(line, "%%") {
+		return false
+	}
+
+	return tags.FindString(line) == tag
+}
+
+var tags = regexp.MustCompile("MThd|MTrk|(?i:delta:[0-9])")
+
 func (a TextAssembler) read(r io.Reader) ([][]string, error) {
 	scanner := bufio.NewScanner(r)
 	lines := make(chan string)
@@ -101,8 +120,6 @@ func (a TextAssembler) scan(scanner *bufio.Scanner, lines chan string) {
 }
 
 func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
-	tags := regexp.MustCompile("(MThd)|(MTrk)")
-
 	clone := func(slice []string) []string {
 		chunk := make([]string, len(slice))
 		copy(chunk, slice)
@@ -111,14 +128,14 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 
 	var chunk []string
 	for line := range lines {
-		if strings.Contains(line, "MThd") {
+		if isMThd(line) {
 			chunk = []string{line}
 			break
 		}
 	}
 
 	for line := range lines {
-		if match := tags.FindStringSubmatch(line); match != nil {
+		if isMThd(line) || isMTrk(line) {
 			chunks <- clone(chunk)
 			chunk = []string{line}
 		} else {
@@ -135,7 +152,7 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 
 func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 	for _, line := range chunk {
-		if strings.Contains(line, "MThd") {
+		if isMThd(line) {
 			var format uint16
 			var division uint16
 
@@ -195,7 +212,7 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 	var mtrk *midi.MTrk
 
 	for line := range lines {
-		if strings.Contains(line, "MTrk") {
+		if isMTrk(line) {
 			if v, err := midi.NewMTrk(); err != nil {
 				return nil, err
 			} else {
-- 
2.43.0


From 451fe4387f5436045ccb88e4d8450594eead486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:25 +0000
Subject: [PATCH 19/75] fix: assemble text events longer than 64K

The disassembly of a file with a long SysEx or text event could not be reassembled.
---
 ops/assemble/text.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 92b91e9..e6371bd 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -93,6 +94,8 @@ var tags = regexp.MustCompile("MThd|MTrk|(?i:delta:[0-9])")
 
 func (a TextAssembler) read(r io.Reader) ([][]string, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt32)
+
 	lines := make(chan string)
 	chunks := make(chan []string)
 
-- 
2.43.0


From 9a7baab8323f884ab9da4e89689506ca8210fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:27 +0000
Subject: [PATCH 20/75] fix: format event data in linear time

Hex.String() was quadratic in the size of the data so that disassembling (or exporting) a file with
a large SysEx event effectively did not terminate.
---
 midi/lib/hex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi/lib/hex.go b/midi/lib/hex.go
index 9276652..fc41be9 100644
--- a/midi/lib/hex.go
+++ b/midi/lib/hex.go
@@ -20,12 +20,12 @@ func ParseHex(s string) (Hex, error) {
 }
 
 func (bytes Hex) String() string {
-	s := ""
+	var s strings.Builder
 	for _, b := range bytes {
-		s += fmt.Sprintf("%02X ", b)
+		fmt.Fprintf(&s, "%02X ", b)
 	}
 
-	return strings.TrimSpace(s)
+	return strings.TrimSpace(s.String())
 }
 
 func (h Hex) MarshalBinary() ([]byte, error) {
-- 
2.43.0


From 48a4987c5bb430ee36a9f093a8146e76bf8a22b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:17 +0000
Subject: [PATCH 21/75] fix: reject time signatures with a denominator that
 cannot be represented

Assembling a time signature with a denominator greater than 128 never terminated, a denominator that
is not a power of 2 was silently changed and a decoded denominator greater than 128 became zero.
---
 midi/events/meta/time_signature.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index 5d271e5..597f3ec 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -3,6 +3,7 @@ package metaevent
 import (
 	"encoding/json"
 	"fmt"
+	"math/bits"
 	"regexp"
 	"strconv"
 
@@ -18,13 +19,6 @@ type TimeSignature struct {
 }
 
 func MakeTimeSignature(tick uint64, delta lib.Delta, numerator, denominator, ticksPerClick, thirtySecondsPerQuarter uint8, bytes ...byte) TimeSignature {
-	d := 0
-	dd := uint8(1)
-	for dd < denominator {
-		dd *= 2
-		d += 1
-	}
-
 	return TimeSignature{
 		event: event{
 			tick:   tick,
@@ -46,6 +40,10 @@ func (e *TimeSignature) unmarshal(tick uint64, delta lib.Delta, status byte, dat
 		return fmt.Errorf("Invalid TimeSignature length (%d): expected '4'", len(data))
 	}
 
+	if data[1] > 7 {
+		return fmt.Errorf("Invalid TimeSignature denominator (2^%d): expected a value in the interval [0..7]", data[1])
+	}
+
 	numerator := data[0]
 	ticksPerClick := data[2]
 	thirtySecondsPerQuarter := data[3]
@@ -66,8 +64,8 @@ func (t TimeSignature) String() string {
 
 func (t TimeSignature) MarshalBinary() (encoded []byte, err error) {
 	d := 0
-	denominator := uint8(1)
-	for denominator < t.Denominator {
+	denominator := uint16(1)
+	for denominator < uint16(t.Denominator) {
 		denominator *= 2
 		d += 1
 	}
@@ -98,6 +96,8 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 		return err
 	} else if len(data) < 4 {
 		return fmt.Errorf("Invalid TimeSignature data")
+	} else if data[1] > 7 {
+		return fmt.Errorf("Invalid TimeSignature denominator (2^%d): expected a value in the interval [0..7]", data[1])
 	} else {
 		numerator := data[0]
 		ticksPerClick := data[2]
@@ -126,6 +126,8 @@ func (e *TimeSignature) UnmarshalText(bytes []byte) error {
 		return err
 	} else if denominator, err := strconv.ParseUint(match[3], 10, 8); err != nil {
 		return err
+	} else if bits.OnesCount64(denominator) != 1 {
+		return fmt.Errorf("invalid TimeSignature denominator (%v): expected a power of 2", denominator)
 	} else if ticks, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
 	} else if beats, err := strconv.ParseUint(match[5], 10, 8); err != nil {
@@ -182,6 +184,8 @@ func (e *TimeSignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagTimeSignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if bits.OnesCount8(t.Denominator) != 1 {
+		return fmt.Errorf("invalid TimeSignature denominator (%v): expected a power of 2", t.Denominator)
 	} else {
 		*e = MakeTimeSignature(0, t.Delta, t.Numerator, t.Denominator, t.TicksPerClick, t.ThirtySecondsPerQuarter, []byte{}...)
 	}
-- 
2.43.0


From 6bdc0f27882144ab49d698d8154c43db20c6d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:20 +0000
Subject: [PATCH 22/75] fix: assemble time signatures with any number of 32nds
 per quarter note

The regular expression rejected e.g. 9 or 0, both of which are valid in a disassembly.
---
 midi/events/meta/time_signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index 597f3ec..ea1135b 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -115,7 +115,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *TimeSignature) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([1-9][0-8]*)/32 per quarter`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([0-9]+)/32 per quarter`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 6 {
-- 
2.43.0


From bc245a264f4fe9308d613295f67aebd752f2fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:22 +0000
Subject: [PATCH 23/75] fix: reject invalid key signatures in assembly source

An unknown key was silently assembled as C major (text) or panicked (JSON).
---
 midi/events/meta/key_signature.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index 8cac694..669f847 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -155,11 +155,13 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 		accidentals := int8(0)
 		keyType := lib.KeyType(0)
 		key := strings.ToLower(fmt.Sprintf("%v %v", match[2], match[3]))
+		found := false
 
 		for _, scale := range lib.MAJOR_SCALES {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				found = true
 				break
 			}
 		}
@@ -168,10 +170,15 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				found = true
 				break
 			}
 		}
 
+		if !found {
+			return fmt.Errorf("invalid KeySignature key (%v %v)", match[2], match[3])
+		}
+
 		*e = MakeKeySignature(0, delta, accidentals, keyType, []byte{}...)
 	}
 
@@ -212,6 +219,12 @@ func (e *KeySignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagKeySignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.KeyType != lib.Major && t.KeyType != lib.Minor {
+		return fmt.Errorf("invalid KeySignature key type (%v)", t.KeyType)
+	} else if _, ok := lib.MajorScale(t.Accidentals); t.KeyType == lib.Major && !ok {
+		return fmt.Errorf("invalid major KeySignature accidentals (%v)", t.Accidentals)
+	} else if _, ok := lib.MinorScale(t.Accidentals); t.KeyType == lib.Minor && !ok {
+		return fmt.Errorf("invalid minor KeySignature accidentals (%v)", t.Accidentals)
 	} else {
 		*e = MakeKeySignature(0, t.Delta, t.Accidentals, t.KeyType, []byte{}...)
 	}
-- 
2.43.0


From 2ae47edf595d8523bdc519d4e2875ed0c4957a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 24/75] fix: return an error for an invalid SMPTE offset in
 assembly source instead of panicking

---
 midi/events/meta/smpte_offset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index cf02b93..f0f17d0 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -228,6 +228,8 @@ func (e *SMPTEOffset) UnmarshalText(text []byte) error {
 		return fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", frameRate)
 	} else if fractions > 100 {
 		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100", fractions)
+	} else if hour > 24 || minute > 59 || second > 59 || frames >= frameRate {
+		return fmt.Errorf("Invalid SMPTE offset (%v %v %v %v %v %v)", hour, minute, second, frameRate, frames, fractions)
 	} else {
 		*e = MakeSMPTEOffset(0, delta, uint8(hour), uint8(minute), uint8(second), uint8(frameRate), uint8(frames), uint8(fractions), []byte{}...)
 	}
@@ -279,6 +281,10 @@ func (e *SMPTEOffset) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagSMPTEOffset) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.FrameRate != 24 && t.FrameRate != 25 && t.FrameRate != 29 && t.FrameRate != 30 {
+		return fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", t.FrameRate)
+	} else if t.Hour > 24 || t.Minute > 59 || t.Second > 59 || t.Frames >= t.FrameRate || t.FractionalFrames > 100 {
+		return fmt.Errorf("Invalid SMPTE offset (%v %v %v %v %v %v)", t.Hour, t.Minute, t.Second, t.FrameRate, t.Frames, t.FractionalFrames)
 	} else {
 		*e = MakeSMPTEOffset(0, t.Delta, t.Hour, t.Minute, t.Second, t.FrameRate, t.Frames, t.FractionalFrames, []byte{}...)
 	}
-- 
2.43.0


From 022e8eb740196e773393c35e3f8a95cb7406fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:26 +0000
Subject: [PATCH 25/75] fix: reject assembly source tempos that do not fit in
 24 bits

The tempo was silently truncated.
---
 midi/events/meta/tempo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi/events/meta/tempo.go b/midi/events/meta/tempo.go
index 1c59834..32ed76d 100644
--- a/midi/events/meta/tempo.go
+++ b/midi/events/meta/tempo.go
@@ -99,6 +99,8 @@ func (e *Tempo) UnmarshalText(text []byte) error {
 		return err
 	} else if tempo, err := strconv.ParseUint(match[2], 10, 32); err != nil {
 		return err
+	} else if tempo > 0x00ffffff {
+		return fmt.Errorf("invalid Tempo (%v): expected a value in the interval [0..16777215]", tempo)
 	} else {
 		*e = MakeTempo(0, delta, uint32(tempo), []byte{}...)
 	}
@@ -135,6 +137,8 @@ func (e *Tempo) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagTempo) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Tempo > 0x00ffffff {
+		return fmt.Errorf("invalid Tempo (%v): expected a value in the interval [0..16777215]", t.Tempo)
 	} else {
 		*e = MakeTempo(0, t.Delta, t.Tempo, []byte{}...)
 	}
-- 
2.43.0


From 18b14b4dd2fbff9f050e102a48a257cd392ea745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:28 +0000
Subject: [PATCH 26/75] fix: reject byte values greater than 255 in JSON data
 and manufacturer IDs

The values were silently truncated to 8 bits.
---
 midi/lib/hex.go          | 4 ++++
 midi/lib/manufacturer.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/midi/lib/hex.go b/midi/lib/hex.go
index fc41be9..6b51393 100644
--- a/midi/lib/hex.go
+++ b/midi/lib/hex.go
@@ -50,6 +50,10 @@ func (h *Hex) UnmarshalJSON(bytes []byte) error {
 
 	buffer := []byte{}
 	for _, b := range v {
+		if b > 0xff {
+			return fmt.Errorf("invalid byte value (%v)", b)
+		}
+
 		buffer = append(buffer, byte(b))
 	}
 
diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index 6fc548d..438e955 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -44,6 +44,10 @@ func (m *Manufacturer) UnmarshalJSON(bytes []byte) error {
 
 	id := []byte{}
 	for _, b := range manufacturer.ID {
+		if b > 0xff {
+			return fmt.Errorf("invalid manufacturer ID (%v)", manufacturer.ID)
+		}
+
 		id = append(id, byte(b))
 	}
 
-- 
2.43.0


From 53e8be974ce2c3ce37b2f4ad01452b66408d4e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:14 +0000
Subject: [PATCH 27/75] fix: reject MIDI events with invalid data bytes

A data byte with the high bit set was accepted as e.g. an out of range note and could not be
encoded again (or panicked, for a PolyphonicPressure event).
---
 midi/MTrk.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index dd0dd43..feb90df 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -194,8 +194,10 @@ func parse(r *bufio.Reader, tick uint64, ctx *context.Context) (*events.Event, e
 	}
 
 	for i := 0; i < length[status&0xf0]; i++ {
-		if _, err := rr.ReadByte(); err != nil {
+		if b, err := rr.ReadByte(); err != nil {
 			return nil, err
+		} else if b > 127 {
+			return nil, fmt.Errorf("Invalid MIDI event data byte (%02X)", b)
 		}
 	}
 
-- 
2.43.0


From 2ac27ad4666db41100cf3474fff3565931b73dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:15 +0000
Subject: [PATCH 28/75] fix: encode the pitch bend as two 7 bit values

The encoder used 8 bits for each byte which is not the inverse of the decoder and generated
invalid MIDI data bytes.
---
 midi/events/midi/pitch_bend.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 4cd3ac5..e3ba0b4 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -58,8 +58,8 @@ func (e *PitchBend) unmarshal(tick uint64, delta uint32, status lib.Status, data
 func (b PitchBend) MarshalBinary() (encoded []byte, err error) {
 	encoded = []byte{
 		byte(0xe0 | b.Channel),
-		byte(b.Bend >> 8 & 0x00ff),
-		byte(b.Bend >> 0 & 0x00ff),
+		byte(b.Bend >> 7 & 0x007f),
+		byte(b.Bend >> 0 & 0x007f),
 	}
 
 	return
-- 
2.43.0


From 341d4d21a22acf0b4e8a426847d2e505309bbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:17 +0000
Subject: [PATCH 29/75] fix: reject out of range values in assembly source MIDI
 events

Values that are not valid MIDI data were either assembled to a corrupt MIDI file or panicked.
---
 midi/events/midi/channel_pressure.go    | 2 ++
 midi/events/midi/controller.go          | 8 ++++++++
 midi/events/midi/note_off.go            | 4 ++++
 midi/events/midi/note_on.go             | 4 ++++
 midi/events/midi/pitch_bend.go          | 4 ++++
 midi/events/midi/polyphonic_pressure.go | 2 ++
 midi/events/midi/program_change.go      | 4 ++++
 7 files changed, 28 insertions(+)

diff --git a/midi/events/midi/channel_pressure.go b/midi/events/midi/channel_pressure.go
index f2ed3af..02df880 100644
--- a/midi/events/midi/channel_pressure.go
+++ b/midi/events/midi/channel_pressure.go
@@ -140,6 +140,8 @@ func (e *ChannelPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagChannelPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid ChannelPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakeChannelPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index 2fa5c6d..328d4ed 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -99,6 +99,10 @@ func (e *Controller) UnmarshalText(text []byte) error {
 		return err
 	} else if value, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if controller > 127 {
+		return fmt.Errorf("invalid Controller ID (%v)", controller)
+	} else if value > 127 {
+		return fmt.Errorf("invalid Controller value (%v)", value)
 	} else {
 		*e = MakeController(0, uint32(delta), lib.Channel(channel), lib.LookupController(uint8(controller)), uint8(value), []byte{}...)
 	}
@@ -139,6 +143,10 @@ func (e *Controller) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagController) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Controller.ID > 127 {
+		return fmt.Errorf("invalid Controller ID (%v)", t.Controller.ID)
+	} else if t.Value > 127 {
+		return fmt.Errorf("invalid Controller value (%v)", t.Value)
 	} else {
 		*e = MakeController(0, uint32(t.Delta), t.Channel, t.Controller, t.Value, []byte{}...)
 	}
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index f5d4867..462dd2b 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -220,6 +220,10 @@ func (e *NoteOff) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOff) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOff note (%v)", t.Note.Value)
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOff velocity (%v)", t.Velocity)
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 7d1a3d7..9e22823 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -160,6 +160,10 @@ func (e *NoteOn) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOn) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOn note (%v)", t.Note.Value)
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOn velocity (%v)", t.Velocity)
 	} else {
 		note := Note{
 			Value: t.Note.Value,
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index e3ba0b4..50c02ab 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -100,6 +100,8 @@ func (e *PitchBend) UnmarshalText(text []byte) error {
 		return err
 	} else if bend, err := strconv.ParseUint(match[3], 10, 16); err != nil {
 		return err
+	} else if bend > 16383 {
+		return fmt.Errorf("invalid PitchBend bend (%v)", bend)
 	} else {
 		*e = MakePitchBend(0, uint32(delta), lib.Channel(channel), uint16(bend), []byte{}...)
 	}
@@ -136,6 +138,8 @@ func (e *PitchBend) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPitchBend) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Bend > 16383 {
+		return fmt.Errorf("invalid PitchBend bend (%v)", t.Bend)
 	} else {
 		*e = MakePitchBend(0, uint32(t.Delta), t.Channel, t.Bend, []byte{}...)
 	}
diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 271136f..9c553c3 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -132,6 +132,8 @@ func (e *PolyphonicPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPolyphonicPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid PolyphonicPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakePolyphonicPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 2045c74..1e3666f 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -94,6 +94,8 @@ func (e *ProgramChange) UnmarshalText(text []byte) error {
 		return err
 	} else if program, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", program)
 	} else {
 		*e = MakeProgramChange(0, uint32(delta), lib.Channel(channel), uint16(bank), uint8(program), []byte{}...)
 	}
@@ -134,6 +136,8 @@ func (e *ProgramChange) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagProgramChange) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", t.Program)
 	} else {
 		*e = MakeProgramChange(0, uint32(t.Delta), t.Channel, t.Bank, t.Program, []byte{}...)
 	}
-- 
2.43.0


From 5c47e4fa7a70ceef21230a4f552080e5c94b2192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:46 +0000
Subject: [PATCH 30/75] fix: assemble notes with a negative octave

The disassembly of notes in the lowest octave(s) e.g. C-1 could not be reassembled.
---
 midi/events/midi/note_off.go | 2 +-
 midi/events/midi/note_on.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index 462dd2b..dd1a812 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -161,7 +161,7 @@ func (n *NoteOff) UnmarshalText(bytes []byte) error {
 	n.tag = lib.TagNoteOff
 	n.Status = 0x80
 
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[-]?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 9e22823..26bb64c 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -105,7 +105,7 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *NoteOn) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[-]?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
-- 
2.43.0


From a090c071f64cca9149bb859f6433fd33677248b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:47 +0000
Subject: [PATCH 31/75] fix: reject notes that are outside the MIDI note range

Notes above G9 were assembled as invalid data bytes.
---
 midi/events/midi/note_on.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 26bb64c..353cd6a 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -237,9 +237,11 @@ func ParseNote(ctx *context.Context, s string) (Note, error) {
 		return Note{}, err
 	} else if octave, err := strconv.ParseInt(match[2], 10, 8); err != nil {
 		return Note{}, err
+	} else if value := 12*(octave+1) + int64(note.Ord); value < 0 || value > 127 {
+		return Note{}, fmt.Errorf("note out of range (%v)", s)
 	} else {
 		return Note{
-			Value: uint8(12*int8(octave+1) + int8(note.Ord)),
+			Value: uint8(value),
 			Name:  fmt.Sprintf("%s%d", note.Name, octave),
 			Alias: fmt.Sprintf("%s%d", note.Name, octave),
 		}, nil
-- 
2.43.0


From c4359ff6910b40f483ff35a6dccef296a51095d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:49 +0000
Subject: [PATCH 32/75] fix: use the middle C convention when parsing notes

Disassembling and then reassembling a file with the --C4 option shifted every note by an octave.
---
 midi/events/midi/note_on.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 353cd6a..1cc8e68 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -231,13 +231,19 @@ func (e NoteOn) Format(ctx *context.Context) NoteOn {
 func ParseNote(ctx *context.Context, s string) (Note, error) {
 	re := regexp.MustCompile(`([A-G][♯♭]?)([-]?[0-9])`)
 
+	// ... offset of the first octave
+	offset := int64(1)
+	if context.MiddleC == lib.C4 {
+		offset = 2
+	}
+
 	if match := re.FindStringSubmatch(s); match == nil || len(match) != 3 {
 		return Note{}, fmt.Errorf("invalid note (%v)", s)
 	} else if note, err := lib.LookupNote(match[1]); err != nil {
 		return Note{}, err
 	} else if octave, err := strconv.ParseInt(match[2], 10, 8); err != nil {
 		return Note{}, err
-	} else if value := 12*(octave+1) + int64(note.Ord); value < 0 || value > 127 {
+	} else if value := 12*(octave+offset) + int64(note.Ord); value < 0 || value > 127 {
 		return Note{}, fmt.Errorf("note out of range (%v)", s)
 	} else {
 		return Note{
-- 
2.43.0


From d8ebcfb93fb02e629ae45ff1379e503775d563a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:50 +0000
Subject: [PATCH 33/75] =?UTF-8?q?fix:=20assemble=20C=E2=99=AD=20and=20B?=
 =?UTF-8?q?=E2=99=AF=20in=20the=20correct=20octave?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

C♭4 (B3) was assembled as B4 and B♯4 (C5) was assembled as C4.
---
 midi/events/midi/note_on.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 1cc8e68..ee625c3 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -228,6 +228,21 @@ func (e NoteOn) Format(ctx *context.Context) NoteOn {
 	}
 }
 
+// The octave of a note is the octave of the natural note i.e. C♭4 is the B below C4 and
+// B♯4 is the C above B4.
+func wrap(note lib.Note) int64 {
+	switch note {
+	case lib.C_FLAT:
+		return -1
+
+	case lib.B_SHARP:
+		return +1
+
+	default:
+		return 0
+	}
+}
+
 func ParseNote(ctx *context.Context, s string) (Note, error) {
 	re := regexp.MustCompile(`([A-G][♯♭]?)([-]?[0-9])`)
 
@@ -243,7 +258,7 @@ func ParseNote(ctx *context.Context, s string) (Note, error) {
 		return Note{}, err
 	} else if octave, err := strconv.ParseInt(match[2], 10, 8); err != nil {
 		return Note{}, err
-	} else if value := 12*(octave+offset) + int64(note.Ord); value < 0 || value > 127 {
+	} else if value := 12*(octave+offset+wrap(note)) + int64(note.Ord); value < 0 || value > 127 {
 		return Note{}, fmt.Errorf("note out of range (%v)", s)
 	} else {
 		return Note{
-- 
2.43.0


From 27368128ee9f98563be2c2b6f0cf7efedf5d33ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:51 +0000
Subject: [PATCH 34/75] fix: retain all 7 bits of the bank select MSB and LSB

Banks with an MSB or LSB greater than 63 were reported as another bank.
---
 midi/MTrk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index feb90df..d7345bf 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -68,13 +68,13 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 				if k.Controller.ID == 0x00 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x003f) | ((v & 0x003f) << 7)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x007f) | ((v & 0x007f) << 7)
 				}
 
 				if k.Controller.ID == 0x20 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x003f << 7)) | (v & 0x003f)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x007f << 7)) | (v & 0x007f)
 				}
 
 			case midievent.NoteOff:
-- 
2.43.0


From 990e2fc337482c1d0c45c809d87a538a1bbcc518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:53 +0000
Subject: [PATCH 35/75] fix: do not panic validating a format 1 file without
 any tracks

---
 midi/smf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/midi/smf.go b/midi/smf.go
index d1d7a09..f02c318 100644
--- a/midi/smf.go
+++ b/midi/smf.go
@@ -98,7 +98,11 @@ func (smf *SMF) validateFormat1() []ValidationError {
 		}
 	}
 
-	for _, track := range smf.Tracks[1:] {
+	for i, track := range smf.Tracks {
+		if i == 0 {
+			continue
+		}
+
 		for _, e := range track.Events {
 			if !events.IsTrack1Event(e) {
 				errors = append(errors, ValidationError(fmt.Errorf("Track %d: unexpected event (%s)", track.TrackNumber, events.Clean(e))))
-- 
2.43.0


From 480960176e32871b4600c2f9b8c029a84d478887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:44 +0000
Subject: [PATCH 36/75] fix: use the default MIDI tempo (120 BPM) for notes
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The default tempo was 50000µs per quarter note i.e. ten times too fast.
---
 ops/notes/notes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index b1f0d26..a09ec43 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -116,7 +116,7 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	})
 
 	// ... assign event timestamps
-	tempo := uint64(50000)
+	tempo := uint64(500000)
 	at := time.Duration(0)
 
 	for i, e := range list {
-- 
2.43.0


From f85bc2d32719607ab936d55b59de6c04a650bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:46 +0000
Subject: [PATCH 37/75] fix: calculate note times across tempo changes

The full delta of an event that spans a tempo change was converted to time using the last tempo only (and the
per event truncation errors accumulated).
---
 ops/notes/notes.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index a09ec43..dd26d16 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -38,7 +38,6 @@ type Note struct {
 
 type event struct {
 	tick  uint64
-	delta uint64
 	at    time.Duration
 	event any
 	ctx   context.Context
@@ -98,7 +97,6 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	for _, e := range track.Events {
 		list = append(list, event{
 			tick:  e.Tick(),
-			delta: uint64(e.Delta()),
 			event: e.Event,
 		})
 	}
@@ -106,7 +104,6 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	for _, e := range tempoMap {
 		list = append(list, event{
 			tick:  e.Tick(),
-			delta: 0,
 			event: e.Event,
 		})
 	}
@@ -118,15 +115,17 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	// ... assign event timestamps
 	tempo := uint64(500000)
 	at := time.Duration(0)
+	tick := uint64(0)
+	remainder := uint64(0)
 
 	for i, e := range list {
 		// beat = float64(tick) / float64(ppqn)
-		delta := time.Duration(1000 * e.delta * tempo / uint64(ppqn))
-		at += delta
-
-		if dt := (uint64(delta) * tempo) % uint64(ppqn); dt > 0 {
-			warnf("%-5dµs loss of precision converting from MIDI tick to physical time at tick %d", dt, e.tick)
-		}
+		// N.B. the elapsed time is relative to the preceding event or tempo change (and not the event delta,
+		//      which may span a tempo change) and carries the remainder so as not to accumulate rounding errors
+		dt := 1000*(e.tick-tick)*tempo + remainder
+		at += time.Duration(dt / uint64(ppqn))
+		remainder = dt % uint64(ppqn)
+		tick = e.tick
 
 		if v, ok := e.event.(metaevent.Tempo); ok {
 			tempo = uint64(v.Tempo)
-- 
2.43.0


From 85a2f3c073eae3c6155ce844ba04e38421e274eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:47 +0000
Subject: [PATCH 38/75] fix: return an error extracting notes from files
 without metrical time

Files with an SMPTE division (or a division of 0) caused a divide by zero panic and files without
any tracks caused an index out of range panic.
---
 ops/notes/notes.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index dd26d16..3e3d8bd 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -60,6 +60,14 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	notes := make([]Note, 0)
 
+	if len(smf.Tracks) == 0 {
+		return notes, nil
+	}
+
+	if smf.MThd.PPQN == 0 {
+		return nil, fmt.Errorf("unsupported MThd division (%04X): expected metrical time", smf.MThd.Division)
+	}
+
 	// ... build tempo map
 	tempoMap := buildTempoMap(*smf)
 
-- 
2.43.0


From 4f6a831860209853f9251f9b4fa74b9d2de80db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:48 +0000
Subject: [PATCH 39/75] fix: list notes ended by EndOfTrack in a consistent
 order

The notes were listed in (random) map iteration order.
---
 ops/notes/notes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 3e3d8bd..ecef5bd 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -4,6 +4,8 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
+	"slices"
 	"sort"
 	"time"
 
@@ -239,7 +241,8 @@ func buildNoteList(events []event, transposition int) ([]Note, error) {
 			for i := 0; i < 16; i++ {
 				list := pending[lib.Channel(i)]
 				if len(list) > 0 {
-					for k, p := range list {
+					for _, k := range slices.Sorted(maps.Keys(list)) {
+						p := list[k]
 						warnf("EndOfTrack automatically ending note (channel:%v, note:%02X, tick:%v, at:%v)", i, k, p.tick, p.at)
 						on := p.event.(midievent.NoteOn)
 
-- 
2.43.0


From 44864c082a1f47d39928ae28d82455edc15f84ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:49 +0000
Subject: [PATCH 40/75] fix: limit transposed notes to the MIDI note range

---
 ops/notes/notes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index ecef5bd..45a0d15 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -282,8 +282,8 @@ func transpose(note uint8, transpose int) uint8 {
 
 	if v < 0 {
 		return 0
-	} else if v > 255 {
-		return 255
+	} else if v > 127 {
+		return 127
 	} else {
 		return uint8(v)
 	}
-- 
2.43.0


From 79516271ad39adc2698d60a8cf7a3895e7e6cf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:51 +0000
Subject: [PATCH 41/75] fix: extract notes from format 0 files

The first (i.e. only) track of a format 0 file was ignored.
---
 ops/notes/notes.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 45a0d15..6bb0591 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -74,7 +74,12 @@ func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	tempoMap := buildTempoMap(*smf)
 
 	// ... extract track notes
-	for _, track := range smf.Tracks[1:] {
+	tracks := smf.Tracks
+	if smf.MThd.Format != 0 {
+		tracks = tracks[1:]
+	}
+
+	for _, track := range tracks {
 		if events, err := buildTrackEvents(*track, tempoMap, smf.MThd.PPQN); err != nil {
 			return nil, err
 		} else if list, err := buildNoteList(events, transposition); err != nil {
-- 
2.43.0


From 4874380782612a712d2dce53d1c2018b6336db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:52 +0000
Subject: [PATCH 42/75] fix: report errors writing the list of notes

---
 ops/notes/notes.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 6bb0591..e6dee63 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -50,13 +50,11 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 		return err
 	} else {
 		if x.JSON {
-			export(notes, x.Writer)
+			return export(notes, x.Writer)
 		} else {
-			print(notes, x.Writer)
+			return print(notes, x.Writer)
 		}
 	}
-
-	return nil
 }
 
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
@@ -300,7 +298,9 @@ func print(notes []Note, w io.Writer) error {
 		end := n.End.Truncate(time.Millisecond)
 		duration := n.Duration.Truncate(time.Millisecond)
 
-		fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration)
+		if _, err := fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration); err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -339,8 +339,8 @@ func export(notes []Note, w io.Writer) error {
 
 	if bytes, err := json.MarshalIndent(object, "", "  "); err != nil {
 		return err
-	} else {
-		w.Write(bytes)
+	} else if _, err := w.Write(bytes); err != nil {
+		return err
 	}
 
 	return nil
-- 
2.43.0


From a580d8200bddb1067267458a9046da9ce6494e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:09 +0000
Subject: [PATCH 43/75] fix: do not modify the source MIDI file when
 transposing

Transpose replaced the tracks of the source SMF with the transposed tracks, so that transposing the same
SMF a second time panicked.
---
 ops/transpose/transpose.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ops/transpose/transpose.go b/ops/transpose/transpose.go
index f359f1b..5d54a0f 100644
--- a/ops/transpose/transpose.go
+++ b/ops/transpose/transpose.go
@@ -14,15 +14,18 @@ type Transpose struct {
 }
 
 func (t *Transpose) Execute(smf *midi.SMF, steps int) ([]byte, error) {
-	for i, mtrk := range smf.Tracks {
-		transposed := transpose(*mtrk, steps)
-		smf.Tracks[i] = transposed
+	transposed := midi.SMF{
+		MThd: smf.MThd,
+	}
+
+	for _, mtrk := range smf.Tracks {
+		transposed.Tracks = append(transposed.Tracks, transpose(*mtrk, steps))
 	}
 
 	var b bytes.Buffer
 	var e = midifile.NewEncoder(&b)
 
-	if err := e.Encode(*smf); err != nil {
+	if err := e.Encode(transposed); err != nil {
 		return nil, err
 	} else {
 		return b.Bytes(), nil
-- 
2.43.0


From 6acbb90186018ed255f893eb6a167edae6eb3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:51 +0000
Subject: [PATCH 44/75] fix: recognise tempo, time signature and end of track
 events in the click track

---
 ops/click/click.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index 4ae040a..60dbfb6 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -42,7 +42,7 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 	tempoMap := make([]*events.Event, 0)
 
 	for _, e := range smf.Tracks[0].Events {
-		if _, ok := e.Event.(*metaevent.Tempo); ok {
+		if _, ok := e.Event.(metaevent.Tempo); ok {
 			tempoMap = append(tempoMap, e)
 		}
 	}
@@ -57,13 +57,13 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 		}
 
 		for _, e := range track.Events {
-			if _, ok := e.Event.(*metaevent.TimeSignature); ok {
+			if _, ok := e.Event.(metaevent.TimeSignature); ok {
 				tick := e.Tick()
 				list := eventlist[tick]
 				eventlist[tick] = append(list, e)
 			}
 
-			if _, ok := e.Event.(*metaevent.EndOfTrack); ok {
+			if _, ok := e.Event.(metaevent.EndOfTrack); ok {
 				tick := e.Tick()
 				list := eventlist[tick]
 				eventlist[tick] = append(list, e)
@@ -97,7 +97,7 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 				event := e.Event
 
 				// ... tempo changes
-				if v, ok := event.(*metaevent.Tempo); ok {
+				if v, ok := event.(metaevent.Tempo); ok {
 					tempo = uint(math.Round(60.0 * 1000000.0 / float64(v.Tempo)))
 
 					debugf("%-14v  %-5v bar:%-3d", "TEMPO", v, bar)
@@ -109,7 +109,7 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 				}
 
 				// ... time signature changes
-				if v, ok := event.(*metaevent.TimeSignature); ok {
+				if v, ok := event.(metaevent.TimeSignature); ok {
 					debugf("%-14v  %-5v bar:%-3d", "TIME SIGNATURE", v, bar)
 
 					cluck := clucks[bar]
@@ -118,10 +118,10 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 					cluck.TimeSignature = fmt.Sprintf("%v", v)
 					clucks[bar] = cluck
 
-					timeSignature = v
+					timeSignature = &v
 				}
 
-				if _, ok := event.(*metaevent.EndOfTrack); ok {
+				if _, ok := event.(metaevent.EndOfTrack); ok {
 					debugf("%-14v  %-5v bar:%-3d", "END OF TRACK", "", bar)
 
 					cluck := clucks[bar]
-- 
2.43.0


From 405128eb603ae47c8912be65ee0511f1a65177dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:04 +0000
Subject: [PATCH 45/75] fix: count click track bars from the last time
 signature change and include the denominator

---
 ops/click/click.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index 60dbfb6..d2f3471 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -80,17 +80,16 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 		})
 
 		var tempo uint = 120
-		var beat float64 = 0.0
 		var bar uint = 1
-		var last float64 = 0.0
-		var timeSignature *metaevent.TimeSignature
+		var start uint = 1
+		var last uint64 = 0
+		var timeSignature metaevent.TimeSignature = metaevent.MakeTimeSignature(0, 0, 4, 4, 24, 8)
 
 		for _, tick := range ticks {
-			beat = float64(tick) / float64(ppqn)
-			if timeSignature != nil {
-				bar += uint((beat - last) / float64(timeSignature.Numerator))
+			// N.B. bars are counted from the most recent time signature change
+			if N := uint64(timeSignature.Numerator); N > 0 {
+				bar = start + uint((tick-last)*uint64(timeSignature.Denominator)/(4*N*ppqn))
 			}
-			last = beat
 
 			list := eventlist[tick]
 			for _, e := range list {
@@ -118,7 +117,9 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 					cluck.TimeSignature = fmt.Sprintf("%v", v)
 					clucks[bar] = cluck
 
-					timeSignature = &v
+					timeSignature = v
+					start = bar
+					last = tick
 				}
 
 				if _, ok := event.(metaevent.EndOfTrack); ok {
-- 
2.43.0


From 16b40a87ce0b30f8f1e4af300c5d59fb9897ff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:25 +0000
Subject: [PATCH 46/75] fix: do not panic extracting the click track from a
 file without tracks or metrical time

---
 ops/click/click.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index d2f3471..cf28456 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -37,8 +37,16 @@ type signature struct {
 }
 
 func (x *ClickTrack) Execute(smf *midi.SMF) error {
+	if len(smf.Tracks) == 0 {
+		return nil
+	}
+
+	if smf.MThd.PPQN == 0 {
+		return fmt.Errorf("unsupported MThd division (%04X): expected metrical time", smf.MThd.Division)
+	}
+
 	clucks := map[uint]Cluck{}
-	ppqn := uint64(smf.MThd.Division)
+	ppqn := uint64(smf.MThd.PPQN)
 	tempoMap := make([]*events.Event, 0)
 
 	for _, e := range smf.Tracks[0].Events {
-- 
2.43.0


From ae4b8fd6e220f28cab49d324a8bd93188326ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:27 +0000
Subject: [PATCH 47/75] fix: include the tempo track time signatures and format
 0 files in the click track

---
 ops/click/click.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index cf28456..4e5dcac 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -48,14 +48,24 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 	clucks := map[uint]Cluck{}
 	ppqn := uint64(smf.MThd.PPQN)
 	tempoMap := make([]*events.Event, 0)
+	tracks := smf.Tracks
 
 	for _, e := range smf.Tracks[0].Events {
 		if _, ok := e.Event.(metaevent.Tempo); ok {
 			tempoMap = append(tempoMap, e)
 		}
+
+		// N.B. time signatures for format 0 files are included with the track events
+		if _, ok := e.Event.(metaevent.TimeSignature); ok && smf.MThd.Format != 0 {
+			tempoMap = append(tempoMap, e)
+		}
+	}
+
+	if smf.MThd.Format != 0 {
+		tracks = tracks[1:]
 	}
 
-	for _, track := range smf.Tracks[1:] {
+	for _, track := range tracks {
 		eventlist := make(map[uint64][]*events.Event, 0)
 
 		for _, e := range tempoMap {
-- 
2.43.0


From 3c503cf67c122460a780cdafe2739b44f45fd009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:28 +0000
Subject: [PATCH 48/75] fix: report errors writing the click track

---
 ops/click/click.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index 4e5dcac..caabd4f 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -167,7 +167,9 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 
 	fmt.Println()
 	for _, v := range list {
-		fmt.Fprintf(x.Writer, "bar %-4v  tempo:%-3v  time-signature %v\n", v.Bar, v.Tempo, v.TimeSignature)
+		if _, err := fmt.Fprintf(x.Writer, "bar %-4v  tempo:%-3v  time-signature %v\n", v.Bar, v.Tempo, v.TimeSignature); err != nil {
+			return err
+		}
 	}
 
 	spans := []Span{}
@@ -194,7 +196,9 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 
 	fmt.Println()
 	for _, v := range spans {
-		fmt.Fprintf(x.Writer, "bars %-7v  tempo:%-3v  time-signature %v\n", fmt.Sprintf("%v:%v", v.Start, v.End), v.Tempo, v.TimeSignature)
+		if _, err := fmt.Fprintf(x.Writer, "bars %-7v  tempo:%-3v  time-signature %v\n", fmt.Sprintf("%v:%v", v.Start, v.End), v.Tempo, v.TimeSignature); err != nil {
+			return err
+		}
 	}
 	fmt.Println()
 
-- 
2.43.0


From f3446a124725f5b6ff4958c57c99e8143ee4035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:08 +0000
Subject: [PATCH 49/75] fix: name the --split --out files after the MIDI file
 and create a usable directory

---
 commands/disassemble.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index 8598538..47c561b 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -82,10 +82,8 @@ func (p disassemble) Execute(flagset *flag.FlagSet) error {
 		}
 	}
 
-	if p.split && p.out == "" {
+	if p.split {
 		return p.separate(op, smf, filename)
-	} else if p.split && p.out != "" {
-		return p.separate(op, smf, p.out)
 	} else {
 		return p.write(op, smf)
 	}
@@ -115,7 +113,7 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 
 	if p.out != "" {
 		dir = p.out
-		err := os.MkdirAll(dir, os.ModeDir)
+		err := os.MkdirAll(dir, 0770)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d44f5e450e2272ea3d431b1c3172c04541872c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:09 +0000
Subject: [PATCH 50/75] fix: report errors writing the disassembled MThd and
 MTrk files

---
 commands/disassemble.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index 47c561b..0330f1f 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -127,7 +127,8 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 	}
 
 	if err = op.Print(smf.MThd, "MThd", w); err != nil {
-		fmt.Printf("Error %v extracting MThd information\n", err)
+		w.Close()
+		return fmt.Errorf("error extracting MThd information (%v)", err)
 	}
 
 	w.Close()
@@ -141,7 +142,8 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 		}
 
 		if err = op.Print(mtrk, "MTrk", w); err != nil {
-			fmt.Printf("Error %v extracting MTrk%d information\n", mtrk.TrackNumber, err)
+			w.Close()
+			return fmt.Errorf("error extracting MTrk %v information (%v)", mtrk.TrackNumber, err)
 		}
 
 		w.Close()
-- 
2.43.0


From 0b407976587f63dbf458aaea824040feba8510e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:10 +0000
Subject: [PATCH 51/75] fix: report errors writing the fixed width table

---
 commands/tsv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commands/tsv.go b/commands/tsv.go
index e49facb..70706c2 100644
--- a/commands/tsv.go
+++ b/commands/tsv.go
@@ -186,7 +186,9 @@ func writeTable(records [][]string, w io.Writer) error {
 			row = append(row, fmt.Sprintf(formats[i], f))
 		}
 
-		fmt.Fprintf(w, "%v\n", strings.Join(row, "  "))
+		if _, err := fmt.Fprintf(w, "%v\n", strings.Join(row, "  ")); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From e646380d598a88a0517675d70b1c15987092d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:12 +0000
Subject: [PATCH 52/75] fix: default the assembled MIDI file to the input file
 name with a .midi extension

---
 commands/assemble.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/commands/assemble.go b/commands/assemble.go
index 69f00da..30baf2e 100644
--- a/commands/assemble.go
+++ b/commands/assemble.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	impl "github.com/transcriptaze/midiasm/ops/assemble"
 )
@@ -68,10 +69,13 @@ func (a assemble) Execute(flagset *flag.FlagSet) error {
 		return err
 	}
 
-	if a.out != "" {
-		if err := os.WriteFile(a.out, midi, 0660); err != nil {
-			return err
-		}
+	out := a.out
+	if out == "" {
+		out = strings.TrimSuffix(filename, filepath.Ext(filename)) + ".midi"
+	}
+
+	if err := os.WriteFile(out, midi, 0660); err != nil {
+		return err
 	}
 
 	return nil
-- 
2.43.0


From 31ccc5425c056bc47a71464221d880face139733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:42 +0000
Subject: [PATCH 53/75] fix: assemble exported JSON with a SMPTE timecode
 division

---
 ops/assemble/json.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ops/assemble/json.go b/ops/assemble/json.go
index 007086f..8cb9c46 100644
--- a/ops/assemble/json.go
+++ b/ops/assemble/json.go
@@ -16,9 +16,10 @@ type JSONAssembler struct {
 }
 
 type mthd struct {
-	Tag    *string `json:"tag,omitempty"`
-	Format *uint16 `json:"format,omitempty"`
-	PPQN   *uint16 `json:"PPQN,omitempty"`
+	Tag      *string `json:"tag,omitempty"`
+	Format   *uint16 `json:"format,omitempty"`
+	Division *uint16 `json:"division,omitempty"`
+	PPQN     *uint16 `json:"PPQN,omitempty"`
 }
 
 type mtrk struct {
@@ -93,6 +94,11 @@ func (a JSONAssembler) parseMThd(h mthd) (*midi.MThd, error) {
 	} else {
 		division = *h.PPQN
 
+		// ... SMPTE timecode?
+		if division == 0 && h.Division != nil && *h.Division&0x8000 == 0x8000 {
+			division = *h.Division
+		}
+
 		if division&0x8000 == 0x8000 {
 			fps := division & 0xff00 >> 8
 			if fps != 0xe8 && fps != 0xe7 && fps != 0xe3 && fps != 0xe2 {
-- 
2.43.0


From f730957c89ca1978e84e9e09e2392ac4d7e8e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:43 +0000
Subject: [PATCH 54/75] fix: assemble disassembled text with a SMPTE timecode
 division

---
 ops/assemble/text.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index e6371bd..6d5825a 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -167,7 +167,15 @@ func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 				format = uint16(v)
 			}
 
-			if match := regexp.MustCompile(`metrical(?:[ -])?time:([0-9]+)\s*ppqn`).FindStringSubmatch(line); match == nil || len(match) < 2 {
+			if match := regexp.MustCompile(`SMPTE:\s*(24|25|29|30)\s*fps,\s*([0-9]+)\s*sub-frames`).FindStringSubmatch(line); match != nil {
+				if fps, err := strconv.ParseUint(match[1], 10, 8); err != nil {
+					return nil, err
+				} else if subframes, err := strconv.ParseUint(match[2], 10, 8); err != nil {
+					return nil, err
+				} else {
+					division = uint16(0x100-fps)<<8 | uint16(subframes)
+				}
+			} else if match := regexp.MustCompile(`metrical(?:[ -])?time:([0-9]+)\s*ppqn`).FindStringSubmatch(line); match == nil || len(match) < 2 {
 				return nil, fmt.Errorf("missing 'metrical-time' field in MThd")
 			} else if v, err := strconv.ParseUint(match[1], 10, 16); err != nil {
 				return nil, err
-- 
2.43.0


From 260afe094760eaabb336108115214bbc029e5412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:01 +0000
Subject: [PATCH 55/75] fix: include the first byte of a three byte
 manufacturer ID in the lookup

---
 midi/lib/manufacturer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index 438e955..023c024 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -78,7 +78,7 @@ func LookupManufacturer(id []byte) Manufacturer {
 
 	case 3:
 		key := fmt.Sprintf("%02X%02X", id[1], id[2])
-		if m, ok := manufacturers[key]; ok {
+		if m, ok := manufacturers[key]; ok && id[0] == m.ID[0] {
 			return m
 		}
 	}
-- 
2.43.0


From a932a1210825b1e1a242fa476012fa684613f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:00 +0000
Subject: [PATCH 56/75] fix: JSON SysExMessage and SequencerSpecificEvent with
 a missing or malformed manufacturer ID

---
 midi/events/meta/sequencer_specific.go | 2 ++
 midi/events/sysex/message.go           | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index 005c763..330b7b7 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -164,6 +164,8 @@ func (e *SequencerSpecificEvent) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagSequencerSpecificEvent) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if id := t.Manufacturer.ID; len(id) != 1 && (len(id) != 3 || id[0] != 0x00) {
+		return fmt.Errorf("invalid SequencerSpecificEvent manufacturer ID (%v)", id)
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index 459cc02..983d0c5 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"regexp"
+	"slices"
 
 	"github.com/transcriptaze/midiasm/midi/lib"
 )
@@ -192,6 +193,8 @@ func (e *SysExMessage) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagSysExMessage) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if id := t.Manufacturer.ID; (len(id) != 1 && (len(id) != 3 || id[0] != 0x00)) || slices.Contains(id, 0xf7) {
+		return fmt.Errorf("invalid SysExMessage manufacturer ID (%v)", id)
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
-- 
2.43.0


From 1ceb25f7ceddc0f9778fe80347dcbeb706630c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:27 +0000
Subject: [PATCH 57/75] fix: text MThd format with extra digits accepted as
 format 0, 1 or 2

---
 ops/assemble/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 6d5825a..15a40db 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -159,7 +159,7 @@ func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 			var format uint16
 			var division uint16
 
-			if match := regexp.MustCompile(`format:(0|1|2)`).FindStringSubmatch(line); match == nil || len(match) < 2 {
+			if match := regexp.MustCompile(`format:(0|1|2)\b`).FindStringSubmatch(line); match == nil || len(match) < 2 {
 				return nil, fmt.Errorf("missing or invalid 'format' field in MThd")
 			} else if v, err := strconv.ParseUint(match[1], 10, 16); err != nil {
 				return nil, err
-- 
2.43.0


From 08c67df38d80dbd7620369e53f10dbc938b6ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:27 +0000
Subject: [PATCH 58/75] fix: transposing a key signature by a very large number
 of semitones

---
 midi/lib/scales.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/midi/lib/scales.go b/midi/lib/scales.go
index 65aad60..aa7e49f 100644
--- a/midi/lib/scales.go
+++ b/midi/lib/scales.go
@@ -118,12 +118,7 @@ loop:
 func transpose(note Note, steps int) Note {
 	for ix, n := range SCALE {
 		if n.Ord == note.Ord {
-			ix = (ix + steps)
-			for ix < 0 {
-				ix += 12
-			}
-
-			ix %= len(SCALE)
+			ix = (ix + steps%len(SCALE) + len(SCALE)) % len(SCALE)
 
 			return SCALE[ix]
 		}
-- 
2.43.0


From 59f2adf70f877e157cc6b23d4ebf5a9a85a2580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:52 +0000
Subject: [PATCH 59/75] fix: order of click track entries for the same bar
 varies from run to run

---
 ops/click/click.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index caabd4f..73fb6cf 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -3,7 +3,9 @@ package click
 import (
 	"fmt"
 	"io"
+	"maps"
 	"math"
+	"slices"
 	"sort"
 
 	"github.com/transcriptaze/midiasm/log"
@@ -157,8 +159,8 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 	}
 
 	list := []Cluck{}
-	for _, v := range clucks {
-		list = append(list, v)
+	for _, k := range slices.Sorted(maps.Keys(clucks)) {
+		list = append(list, clucks[k])
 	}
 
 	sort.SliceStable(list, func(i, j int) bool {
-- 
2.43.0


From 7c85ea42ad6db580996ebc99ef83fbe3a5f822f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:41 +0000
Subject: [PATCH 60/75] fix: bank select MSB at the end of a track not reported
 by validation

---
 midi/smf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi/smf.go b/midi/smf.go
index f02c318..c3395f9 100644
--- a/midi/smf.go
+++ b/midi/smf.go
@@ -71,6 +71,10 @@ func (smf *SMF) Validate() []ValidationError {
 
 			last = e.Event
 		}
+
+		if c, ok := last.(midievent.Controller); ok && c.Controller.ID == 0x00 {
+			errors = append(errors, ValidationError(fmt.Errorf("Track %d: 'Bank Select MSB' event @%d missing LSB (%s)", track.TrackNumber, len(track.Events), events.Clean(last))))
+		}
 	}
 
 	return errors
-- 
2.43.0


From d362e032413bb9f993c92244d74f90e1d5fa66c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:49 +0000
Subject: [PATCH 61/75] fix: transposing a file changes (and shares) the note
 naming context of the source tracks

---
 ops/transpose/transpose.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ops/transpose/transpose.go b/ops/transpose/transpose.go
index 5d54a0f..18a55cc 100644
--- a/ops/transpose/transpose.go
+++ b/ops/transpose/transpose.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/transcriptaze/midiasm/encoding/midi"
 	"github.com/transcriptaze/midiasm/midi"
+	"github.com/transcriptaze/midiasm/midi/context"
 	"github.com/transcriptaze/midiasm/midi/events"
 	"github.com/transcriptaze/midiasm/midi/events/meta"
 	"github.com/transcriptaze/midiasm/midi/events/midi"
@@ -39,25 +40,27 @@ func transpose(mtrk midi.MTrk, steps int) *midi.MTrk {
 		Events:      []*events.Event{},
 	}
 
+	ctx := context.NewContext()
+
 	for i, _ := range mtrk.Events {
 		event := mtrk.Events[i]
 		switch v := event.Event.(type) {
 		case *metaevent.KeySignature:
 		case metaevent.KeySignature:
 			track.Events = append(track.Events, &events.Event{
-				Event: v.Transpose(mtrk.Context, steps),
+				Event: v.Transpose(ctx, steps),
 			})
 
 		case *midievent.NoteOn:
 		case midievent.NoteOn:
 			track.Events = append(track.Events, &events.Event{
-				Event: v.Transpose(mtrk.Context, steps),
+				Event: v.Transpose(ctx, steps),
 			})
 
 		case *midievent.NoteOff:
 		case midievent.NoteOff:
 			track.Events = append(track.Events, &events.Event{
-				Event: v.Transpose(mtrk.Context, steps),
+				Event: v.Transpose(ctx, steps),
 			})
 
 		default:
-- 
2.43.0


From 083efe30448373b1e44eaf8327b29b56c87f8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:32 +0000
Subject: [PATCH 62/75] fix: reject single binary MIDI events with invalid data
 bytes

---
 midi/events/midi/controller.go     | 4 ++++
 midi/events/midi/note_off.go       | 2 ++
 midi/events/midi/note_on.go        | 2 ++
 midi/events/midi/pitch_bend.go     | 2 ++
 midi/events/midi/program_change.go | 2 ++
 5 files changed, 12 insertions(+)

diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index 328d4ed..a70d556 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -77,6 +77,10 @@ func (e *Controller) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid Controller data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid Controller controller (%v)", data[0])
+	} else if data[1] > 127 {
+		return fmt.Errorf("Invalid Controller value (%v)", data[1])
 	} else {
 		controller := lib.LookupController(data[0])
 		value := data[1]
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index dd1a812..30f9d2e 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -139,6 +139,8 @@ func (e *NoteOff) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid NoteOff data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid NoteOff note (%v)", data[0])
 	} else if velocity := data[1]; velocity > 127 {
 		return fmt.Errorf("Invalid NoteOff velocity (%v)", velocity)
 	} else {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index ee625c3..d92df78 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -89,6 +89,8 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid NoteOn data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid NoteOn note (%v)", data[0])
 	} else if velocity := data[1]; velocity > 127 {
 		return fmt.Errorf("Invalid NoteOn velocity (%v)", velocity)
 	} else {
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 50c02ab..7a332e6 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -78,6 +78,8 @@ func (e *PitchBend) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid PitchBend data")
 	} else if pressure := data[0]; pressure > 127 {
 		return fmt.Errorf("InvalidPitchBend pressure (%v)", pressure)
+	} else if data[1] > 127 {
+		return fmt.Errorf("Invalid PitchBend bend (%v)", data)
 	} else {
 		bend := uint16(data[0])
 		bend <<= 7
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 1e3666f..d38641c 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -71,6 +71,8 @@ func (e *ProgramChange) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 1 {
 		return fmt.Errorf("Invalid ProgramChange data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid ProgramChange program (%v)", data[0])
 	} else {
 		bank := uint16(0)
 		program := data[0]
-- 
2.43.0


From 9f7d598680a661c65dc54340b47c83882be127bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:36 +0000
Subject: [PATCH 63/75] fix: reject single binary META events with an invalid
 length

---
 midi/events/meta/end_of_track.go        | 2 ++
 midi/events/meta/key_signature.go       | 2 +-
 midi/events/meta/midi_channel_prefix.go | 2 +-
 midi/events/meta/midi_port.go           | 2 +-
 midi/events/meta/smpte_offset.go        | 2 +-
 midi/events/meta/tempo.go               | 2 +-
 midi/events/meta/time_signature.go      | 2 +-
 7 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/midi/events/meta/end_of_track.go b/midi/events/meta/end_of_track.go
index 829b771..b17d5a1 100644
--- a/midi/events/meta/end_of_track.go
+++ b/midi/events/meta/end_of_track.go
@@ -48,6 +48,8 @@ func (e *EndOfTrack) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v status (%02X)", lib.TagEndOfTrack, remaining[0])
 	} else if !equals(remaining[1], lib.TypeEndOfTrack) {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagEndOfTrack, remaining[1])
+	} else if _, err := vlf(remaining[2:]); err != nil {
+		return err
 	} else {
 		*e = MakeEndOfTrack(0, delta, bytes...)
 	}
diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index 669f847..1cf1dc8 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -115,7 +115,7 @@ func (e *KeySignature) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagKeySignature, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 {
+	} else if len(data) != 2 {
 		return fmt.Errorf("Invalid KeySignature data")
 	} else {
 		var accidentals = int8(data[0])
diff --git a/midi/events/meta/midi_channel_prefix.go b/midi/events/meta/midi_channel_prefix.go
index f04ddf7..5d58d4e 100644
--- a/midi/events/meta/midi_channel_prefix.go
+++ b/midi/events/meta/midi_channel_prefix.go
@@ -66,7 +66,7 @@ func (e *MIDIChannelPrefix) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagMIDIChannelPrefix, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 1 {
+	} else if len(data) != 1 {
 		return fmt.Errorf("Invalid MIDIChannelPrefix channel data")
 	} else if channel := data[0]; channel > 15 {
 		return fmt.Errorf("Invalid MIDIChannelPrefix channel (%d): expected a value in the interval [0..15]", channel)
diff --git a/midi/events/meta/midi_port.go b/midi/events/meta/midi_port.go
index bc6c52d..b7ecf82 100644
--- a/midi/events/meta/midi_port.go
+++ b/midi/events/meta/midi_port.go
@@ -68,7 +68,7 @@ func (e *MIDIPort) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagMIDIPort, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 1 {
+	} else if len(data) != 1 {
 		return fmt.Errorf("Invalid MIDIPort channel data")
 	} else if port := data[0]; port > 127 {
 		return fmt.Errorf("Invalid MIDIPort port (%d): expected a value in the interval [0..127]", port)
diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index f0f17d0..ac9a2b9 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -153,7 +153,7 @@ func (e *SMPTEOffset) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSMPTEOffset, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 5 {
+	} else if len(data) != 5 {
 		return fmt.Errorf("Invalid SMPTE offset data")
 	} else {
 		rr := (data[0] >> 5) & 0x03
diff --git a/midi/events/meta/tempo.go b/midi/events/meta/tempo.go
index 32ed76d..4c32430 100644
--- a/midi/events/meta/tempo.go
+++ b/midi/events/meta/tempo.go
@@ -75,7 +75,7 @@ func (e *Tempo) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagTempo, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 3 {
+	} else if len(data) != 3 {
 		return fmt.Errorf("Invalid Tempo data")
 	} else {
 		tempo := uint32(data[0])
diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index ea1135b..486f62d 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -94,7 +94,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagTimeSignature, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 4 {
+	} else if len(data) != 4 {
 		return fmt.Errorf("Invalid TimeSignature data")
 	} else if data[1] > 7 {
 		return fmt.Errorf("Invalid TimeSignature denominator (2^%d): expected a value in the interval [0..7]", data[1])
-- 
2.43.0


From fdd3086c4dbb2eb59e22aaa8c562cbc62d24cb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:24 +0000
Subject: [PATCH 64/75] fix: use the name and region of manufacturers loaded
 from a file

---
 midi/lib/manufacturer.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index 023c024..f4b5263 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -98,10 +98,12 @@ func FindManufacturer(s string) (Manufacturer, error) {
 
 func LoadManufacturers(r io.Reader) (map[string]Manufacturer, error) {
 	conf := struct {
-		Manufacturers []Manufacturer `json:"manufacturers"`
-	}{
-		Manufacturers: []Manufacturer{},
-	}
+		Manufacturers []struct {
+			ID     []uint `json:"id"`
+			Region string `json:"region"`
+			Name   string `json:"name"`
+		} `json:"manufacturers"`
+	}{}
 
 	bytes, err := ioutil.ReadAll(r)
 	if err != nil {
@@ -115,7 +117,16 @@ func LoadManufacturers(r io.Reader) (map[string]Manufacturer, error) {
 
 	list := map[string]Manufacturer{}
 	for _, m := range conf.Manufacturers {
-		k, v, err := makeManufacturer(m.ID, m.Region, m.Name)
+		id := []byte{}
+		for _, b := range m.ID {
+			if b > 0xff {
+				return nil, fmt.Errorf("Invalid manufacturer ID: %v", m.ID)
+			}
+
+			id = append(id, byte(b))
+		}
+
+		k, v, err := makeManufacturer(id, m.Region, m.Name)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 304eb5cb3c7115060567cd8330f636fef81425a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:42 +0000
Subject: [PATCH 65/75] fix: reject JSON SysEx and sequencer specific events
 with an ambiguous one byte manufacturer ID of 00

---
 midi/events/meta/sequencer_specific.go | 2 +-
 midi/events/sysex/message.go           | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index 330b7b7..a609597 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -164,7 +164,7 @@ func (e *SequencerSpecificEvent) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagSequencerSpecificEvent) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
-	} else if id := t.Manufacturer.ID; len(id) != 1 && (len(id) != 3 || id[0] != 0x00) {
+	} else if id := t.Manufacturer.ID; (len(id) != 1 || id[0] == 0x00) && (len(id) != 3 || id[0] != 0x00) {
 		return fmt.Errorf("invalid SequencerSpecificEvent manufacturer ID (%v)", id)
 	} else {
 		e.tick = 0
diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index 983d0c5..8f6b5e0 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -195,6 +195,8 @@ func (e *SysExMessage) UnmarshalJSON(bytes []byte) error {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
 	} else if id := t.Manufacturer.ID; (len(id) != 1 && (len(id) != 3 || id[0] != 0x00)) || slices.Contains(id, 0xf7) {
 		return fmt.Errorf("invalid SysExMessage manufacturer ID (%v)", id)
+	} else if v, _, err := split(append(slices.Clone(id), t.Data...)); err != nil || len(v) != len(id) {
+		return fmt.Errorf("invalid SysExMessage manufacturer ID (%v)", id)
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
-- 
2.43.0


From 9775e0743cfd4c66d7bbeb267120ea0b45d4f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:00 +0000
Subject: [PATCH 66/75] fix: list the notes in the first track of format 1 and
 format 2 files

---
 ops/notes/notes.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index e6dee63..87cbd3d 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -72,12 +72,7 @@ func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	tempoMap := buildTempoMap(*smf)
 
 	// ... extract track notes
-	tracks := smf.Tracks
-	if smf.MThd.Format != 0 {
-		tracks = tracks[1:]
-	}
-
-	for _, track := range tracks {
+	for _, track := range smf.Tracks {
 		if events, err := buildTrackEvents(*track, tempoMap, smf.MThd.PPQN); err != nil {
 			return nil, err
 		} else if list, err := buildNoteList(events, transposition); err != nil {
-- 
2.43.0


From d03e7fb203f5c4727e7a5da280afb21f6c6fb55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:02 +0000
Subject: [PATCH 67/75] fix: use the tempo changes in all the tracks of a
 format 1 file (and only its own for a format 2 track) for note times

---
 ops/notes/notes.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 87cbd3d..c58110a 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -88,9 +88,16 @@ func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 func buildTempoMap(smf midi.SMF) []events.Event {
 	list := []events.Event{}
 
-	for _, e := range smf.Tracks[0].Events {
-		if _, ok := e.Event.(metaevent.Tempo); ok {
-			list = append(list, *e)
+	// N.B. the tracks in a format 2 file are independent i.e. only use their own tempo changes
+	if smf.MThd.Format == 2 {
+		return list
+	}
+
+	for _, track := range smf.Tracks {
+		for _, e := range track.Events {
+			if _, ok := e.Event.(metaevent.Tempo); ok {
+				list = append(list, *e)
+			}
 		}
 	}
 
-- 
2.43.0


From 535b15361a58bcc7dfcf55bf3e99c705a416d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:45 +0000
Subject: [PATCH 68/75] fix: list click track changes from all tracks, the
 first bar and the time signature in force, and do not relabel a change in the
 last bar

---
 ops/click/click.go | 163 +++++++++++++++++++++------------------------
 1 file changed, 76 insertions(+), 87 deletions(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index 73fb6cf..9f165c6 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -49,113 +49,102 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 
 	clucks := map[uint]Cluck{}
 	ppqn := uint64(smf.MThd.PPQN)
-	tempoMap := make([]*events.Event, 0)
-	tracks := smf.Tracks
+	eventlist := make(map[uint64][]*events.Event, 0)
+	end := uint64(0)
 
-	for _, e := range smf.Tracks[0].Events {
-		if _, ok := e.Event.(metaevent.Tempo); ok {
-			tempoMap = append(tempoMap, e)
-		}
+	for _, track := range smf.Tracks {
+		for _, e := range track.Events {
+			tick := e.Tick()
 
-		// N.B. time signatures for format 0 files are included with the track events
-		if _, ok := e.Event.(metaevent.TimeSignature); ok && smf.MThd.Format != 0 {
-			tempoMap = append(tempoMap, e)
+			switch e.Event.(type) {
+			case metaevent.Tempo, metaevent.TimeSignature:
+				eventlist[tick] = append(eventlist[tick], e)
+			}
+
+			end = max(end, tick)
 		}
 	}
 
-	if smf.MThd.Format != 0 {
-		tracks = tracks[1:]
+	var ticks []uint64
+	for tick, _ := range eventlist {
+		ticks = append(ticks, tick)
 	}
 
-	for _, track := range tracks {
-		eventlist := make(map[uint64][]*events.Event, 0)
+	sort.SliceStable(ticks, func(i, j int) bool {
+		return ticks[i] < ticks[j]
+	})
 
-		for _, e := range tempoMap {
-			tick := e.Tick()
-			list := eventlist[tick]
-			eventlist[tick] = append(list, e)
-		}
+	var tempo uint = 120
+	var bar uint = 1
+	var start uint = 1
+	var last uint64 = 0
+	var timeSignature metaevent.TimeSignature = metaevent.MakeTimeSignature(0, 0, 4, 4, 24, 8)
 
-		for _, e := range track.Events {
-			if _, ok := e.Event.(metaevent.TimeSignature); ok {
-				tick := e.Tick()
-				list := eventlist[tick]
-				eventlist[tick] = append(list, e)
-			}
+	clucks[bar] = Cluck{
+		Bar:           bar,
+		Tempo:         tempo,
+		TimeSignature: fmt.Sprintf("%v", timeSignature),
+	}
 
-			if _, ok := e.Event.(metaevent.EndOfTrack); ok {
-				tick := e.Tick()
-				list := eventlist[tick]
-				eventlist[tick] = append(list, e)
-			}
+	for _, tick := range ticks {
+		// N.B. bars are counted from the most recent time signature change
+		if N := uint64(timeSignature.Numerator); N > 0 {
+			bar = start + uint((tick-last)*uint64(timeSignature.Denominator)/(4*N*ppqn))
 		}
 
-		var ticks []uint64
-		for tick, _ := range eventlist {
-			ticks = append(ticks, tick)
-		}
+		list := eventlist[tick]
+		for _, e := range list {
+			event := e.Event
 
-		sort.SliceStable(ticks, func(i, j int) bool {
-			return ticks[i] < ticks[j]
-		})
+			// ... tempo changes
+			if v, ok := event.(metaevent.Tempo); ok {
+				tempo = uint(math.Round(60.0 * 1000000.0 / float64(v.Tempo)))
 
-		var tempo uint = 120
-		var bar uint = 1
-		var start uint = 1
-		var last uint64 = 0
-		var timeSignature metaevent.TimeSignature = metaevent.MakeTimeSignature(0, 0, 4, 4, 24, 8)
+				debugf("%-14v  %-5v bar:%-3d", "TEMPO", v, bar)
 
-		for _, tick := range ticks {
-			// N.B. bars are counted from the most recent time signature change
-			if N := uint64(timeSignature.Numerator); N > 0 {
-				bar = start + uint((tick-last)*uint64(timeSignature.Denominator)/(4*N*ppqn))
+				cluck := clucks[bar]
+				cluck.Bar = bar
+				cluck.Tempo = tempo
+				cluck.TimeSignature = fmt.Sprintf("%v", timeSignature)
+				clucks[bar] = cluck
 			}
 
-			list := eventlist[tick]
-			for _, e := range list {
-				event := e.Event
-
-				// ... tempo changes
-				if v, ok := event.(metaevent.Tempo); ok {
-					tempo = uint(math.Round(60.0 * 1000000.0 / float64(v.Tempo)))
-
-					debugf("%-14v  %-5v bar:%-3d", "TEMPO", v, bar)
-
-					cluck := clucks[bar]
-					cluck.Bar = bar
-					cluck.Tempo = tempo
-					clucks[bar] = cluck
-				}
-
-				// ... time signature changes
-				if v, ok := event.(metaevent.TimeSignature); ok {
-					debugf("%-14v  %-5v bar:%-3d", "TIME SIGNATURE", v, bar)
-
-					cluck := clucks[bar]
-					cluck.Bar = bar
-					cluck.Tempo = tempo
-					cluck.TimeSignature = fmt.Sprintf("%v", v)
-					clucks[bar] = cluck
-
-					timeSignature = v
-					start = bar
-					last = tick
-				}
-
-				if _, ok := event.(metaevent.EndOfTrack); ok {
-					debugf("%-14v  %-5v bar:%-3d", "END OF TRACK", "", bar)
-
-					cluck := clucks[bar]
-					cluck.Bar = bar - 1 // because end of track as after the last bar ????
-					cluck.Tempo = tempo
-					cluck.TimeSignature = fmt.Sprintf("%v", timeSignature)
-					clucks[bar] = cluck
-				}
+			// ... time signature changes
+			if v, ok := event.(metaevent.TimeSignature); ok {
+				debugf("%-14v  %-5v bar:%-3d", "TIME SIGNATURE", v, bar)
+
+				cluck := clucks[bar]
+				cluck.Bar = bar
+				cluck.Tempo = tempo
+				cluck.TimeSignature = fmt.Sprintf("%v", v)
+				clucks[bar] = cluck
+
+				timeSignature = v
+				start = bar
+				last = tick
 			}
 		}
+	}
+
+	// ... last bar
+	if N := uint64(timeSignature.Numerator); N > 0 {
+		beats := (end - last) * uint64(timeSignature.Denominator)
+		bar = start + uint(beats/(4*N*ppqn))
 
-		// Only process Track 1 for now
-		break
+		// N.B. a piece that ends on a bar line ends with the preceding bar
+		if _, ok := clucks[bar]; !ok && beats%(4*N*ppqn) == 0 {
+			bar--
+		}
+
+		debugf("%-14v  %-5v bar:%-3d", "END OF TRACK", "", bar)
+
+		if _, ok := clucks[bar]; !ok {
+			clucks[bar] = Cluck{
+				Bar:           bar,
+				Tempo:         tempo,
+				TimeSignature: fmt.Sprintf("%v", timeSignature),
+			}
+		}
 	}
 
 	list := []Cluck{}
-- 
2.43.0


From 6ebefbd2e23f3a767abd389b794137ac2d6c3400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:34 +0000
Subject: [PATCH 69/75] fix: report a missing --out file for transpose instead
 of discarding the result

---
 commands/transpose.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/commands/transpose.go b/commands/transpose.go
index f090549..c4ba4a9 100644
--- a/commands/transpose.go
+++ b/commands/transpose.go
@@ -72,15 +72,17 @@ func (t transpose) execute(smf *midi.SMF) error {
 		return err
 	}
 
-	if t.out != "" {
-		if w, err := os.Create(t.out); err != nil {
-			return err
-		} else {
-			defer w.Close()
+	if t.out == "" {
+		return fmt.Errorf("missing output file (--out <file> is required)")
+	}
 
-			if _, err := w.Write(transposed); err != nil {
-				return err
-			}
+	if w, err := os.Create(t.out); err != nil {
+		return err
+	} else {
+		defer w.Close()
+
+		if _, err := w.Write(transposed); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 1730e96a66ea132ef1f92b946d9e8d5cfb09c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:44 +0000
Subject: [PATCH 70/75] fix: all eight bits of the ticks per frame in MakeMThd

---
 midi/MThd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/MThd.go b/midi/MThd.go
index 645530a..d631a64 100644
--- a/midi/MThd.go
+++ b/midi/MThd.go
@@ -49,7 +49,7 @@ func MakeMThd(format uint16, tracks uint16, division uint16, bytes ...byte) MThd
 		mthd.PPQN = division & 0x7fff
 	} else {
 		mthd.SMPTETimeCode = true
-		mthd.SubFrames = division & 0x007f
+		mthd.SubFrames = division & 0x00ff
 
 		fps := division & 0xff00 >> 8
 		switch fps {
-- 
2.43.0


From 5a80ff541d06a7db6c2856da996cf7eceee64e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:46 +0000
Subject: [PATCH 71/75] fix: return an error for a MThd or MTrk chunk that is
 too short, instead of a panic

---
 midi/MThd.go | 4 ++++
 midi/MTrk.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/midi/MThd.go b/midi/MThd.go
index d631a64..80dd8a1 100644
--- a/midi/MThd.go
+++ b/midi/MThd.go
@@ -72,6 +72,10 @@ func MakeMThd(format uint16, tracks uint16, division uint16, bytes ...byte) MThd
 }
 
 func (mthd *MThd) UnmarshalBinary(chunk []byte) error {
+	if len(chunk) < 14 {
+		return fmt.Errorf("invalid MThd chunk (%v bytes) - expected 14 bytes", len(chunk))
+	}
+
 	if tag := string(chunk[0:4]); tag != "MThd" {
 		return fmt.Errorf("invalid MThd chunk - expected:'%v', got:'%v'", "MThd", tag)
 	} else {
diff --git a/midi/MTrk.go b/midi/MTrk.go
index d7345bf..022a7c3 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -37,6 +37,10 @@ func NewMTrk() (*MTrk, error) {
 }
 
 func (chunk *MTrk) UnmarshalBinary(data []byte) error {
+	if len(data) < 8 {
+		return fmt.Errorf("Invalid MTrk chunk (%v bytes): expected at least 8 bytes", len(data))
+	}
+
 	tag := string(data[0:4])
 	if tag != "MTrk" {
 		return fmt.Errorf("Invalid MTrk chunk type (%s): expected 'MTrk'", tag)
-- 
2.43.0


From ea1f755292983209b34271384eeffc3e2437e231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 72/75] fix: clear the division of a MThd that is used again
 before decoding another

---
 midi/MThd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/midi/MThd.go b/midi/MThd.go
index 80dd8a1..698a425 100644
--- a/midi/MThd.go
+++ b/midi/MThd.go
@@ -97,6 +97,12 @@ func (mthd *MThd) UnmarshalBinary(chunk []byte) error {
 	mthd.Tracks = binary.BigEndian.Uint16(chunk[10:12])
 	mthd.Division = binary.BigEndian.Uint16(chunk[12:14])
 
+	mthd.SMPTETimeCode = false
+	mthd.PPQN = 0
+	mthd.SubFrames = 0
+	mthd.FPS = 0
+	mthd.DropFrame = false
+
 	if mthd.Division&0x8000 == 0x0000 {
 		mthd.PPQN = mthd.Division & 0x7fff
 	} else {
-- 
2.43.0


From 6ffd5098312ebc4e84d88ed7dafc80c2d7c289aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:10 +0000
Subject: [PATCH 73/75] fix: time of the notes list in proportion to the file,
 with many tracks and tempo changes

---
 ops/notes/notes.go | 82 ++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 39 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index c58110a..7cbdac5 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -12,7 +12,6 @@ import (
 	"github.com/transcriptaze/midiasm/log"
 	"github.com/transcriptaze/midiasm/midi"
 	"github.com/transcriptaze/midiasm/midi/context"
-	"github.com/transcriptaze/midiasm/midi/events"
 	"github.com/transcriptaze/midiasm/midi/events/meta"
 	"github.com/transcriptaze/midiasm/midi/events/midi"
 	"github.com/transcriptaze/midiasm/midi/lib"
@@ -45,6 +44,22 @@ type event struct {
 	ctx   context.Context
 }
 
+type tempo struct {
+	tick      uint64
+	tempo     uint64
+	at        time.Duration
+	remainder uint64
+}
+
+// Returns the elapsed time at a tick that is not before the tempo change, with the remainder (in 1/PPQN nanoseconds).
+func (t tempo) elapsed(tick uint64, ppqn uint16) (time.Duration, uint64) {
+	ticks := tick - t.tick
+	dt := 1000*(ticks%uint64(ppqn))*t.tempo + t.remainder
+	at := t.at + time.Duration(1000*(ticks/uint64(ppqn))*t.tempo) + time.Duration(dt/uint64(ppqn))
+
+	return at, dt % uint64(ppqn)
+}
+
 func (x *Notes) Execute(smf *midi.SMF) error {
 	if notes, err := extract(smf, x.Transpose); err != nil {
 		return err
@@ -69,10 +84,15 @@ func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	}
 
 	// ... build tempo map
-	tempoMap := buildTempoMap(*smf)
+	// N.B. the tracks in a format 2 file are independent i.e. only use their own tempo changes
+	tempoMap := buildTempoMap(smf.MThd.PPQN, smf.Tracks...)
 
 	// ... extract track notes
 	for _, track := range smf.Tracks {
+		if smf.MThd.Format == 2 {
+			tempoMap = buildTempoMap(smf.MThd.PPQN, track)
+		}
+
 		if events, err := buildTrackEvents(*track, tempoMap, smf.MThd.PPQN); err != nil {
 			return nil, err
 		} else if list, err := buildNoteList(events, transposition); err != nil {
@@ -85,26 +105,34 @@ func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	return notes, nil
 }
 
-func buildTempoMap(smf midi.SMF) []events.Event {
-	list := []events.Event{}
+// Returns the tempo changes in tick order, with the elapsed time at each of them. The remainder is carried so as not to
+// accumulate rounding errors.
+func buildTempoMap(ppqn uint16, tracks ...*midi.MTrk) []tempo {
+	list := []tempo{{tempo: 500000}}
 
-	// N.B. the tracks in a format 2 file are independent i.e. only use their own tempo changes
-	if smf.MThd.Format == 2 {
-		return list
-	}
-
-	for _, track := range smf.Tracks {
+	for _, track := range tracks {
 		for _, e := range track.Events {
-			if _, ok := e.Event.(metaevent.Tempo); ok {
-				list = append(list, *e)
+			if v, ok := e.Event.(metaevent.Tempo); ok {
+				list = append(list, tempo{
+					tick:  e.Tick(),
+					tempo: uint64(v.Tempo),
+				})
 			}
 		}
 	}
 
+	sort.SliceStable(list, func(i, j int) bool {
+		return list[i].tick < list[j].tick
+	})
+
+	for i := 1; i < len(list); i++ {
+		list[i].at, list[i].remainder = list[i-1].elapsed(list[i].tick, ppqn)
+	}
+
 	return list
 }
 
-func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]event, error) {
+func buildTrackEvents(track midi.MTrk, tempoMap []tempo, ppqn uint16) ([]event, error) {
 	ctx := context.NewContext()
 
 	// ... build event list
@@ -116,35 +144,11 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 		})
 	}
 
-	for _, e := range tempoMap {
-		list = append(list, event{
-			tick:  e.Tick(),
-			event: e.Event,
-		})
-	}
-
-	sort.SliceStable(list, func(i, j int) bool {
-		return list[i].tick < list[j].tick
-	})
-
 	// ... assign event timestamps
-	tempo := uint64(500000)
-	at := time.Duration(0)
-	tick := uint64(0)
-	remainder := uint64(0)
-
 	for i, e := range list {
 		// beat = float64(tick) / float64(ppqn)
-		// N.B. the elapsed time is relative to the preceding event or tempo change (and not the event delta,
-		//      which may span a tempo change) and carries the remainder so as not to accumulate rounding errors
-		dt := 1000*(e.tick-tick)*tempo + remainder
-		at += time.Duration(dt / uint64(ppqn))
-		remainder = dt % uint64(ppqn)
-		tick = e.tick
-
-		if v, ok := e.event.(metaevent.Tempo); ok {
-			tempo = uint64(v.Tempo)
-		}
+		ix := sort.Search(len(tempoMap), func(k int) bool { return tempoMap[k].tick > e.tick })
+		at, _ := tempoMap[ix-1].elapsed(e.tick, ppqn)
 
 		if v, ok := e.event.(metaevent.KeySignature); ok {
 			if v.Accidentals < 0 {
-- 
2.43.0


From af8f219b04a8711b030dd84bba559d265b7653dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:05 +0000
Subject: [PATCH 74/75] fix: reject a text event with an invalid delta even if
 its text contains MThd or MTrk

---
 ops/assemble/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 15a40db..8e5aa83 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -90,7 +90,7 @@ func isChunk(line string, tag string) bool {
 	return tags.FindString(line) == tag
 }
 
-var tags = regexp.MustCompile("MThd|MTrk|(?i:delta:[0-9])")
+var tags = regexp.MustCompile("MThd|MTrk|(?i:delta:)")
 
 func (a TextAssembler) read(r io.Reader) ([][]string, error) {
 	scanner := bufio.NewScanner(r)
-- 
2.43.0


From 5175008635f411e2ea47a232300d9e3e0c3b758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:25 +0000
Subject: [PATCH 75/75] fix: a table with a text of more than 10 million bytes
 is padded, not filled with format errors

---
 commands/tsv.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/commands/tsv.go b/commands/tsv.go
index 70706c2..eaffeb1 100644
--- a/commands/tsv.go
+++ b/commands/tsv.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/transcriptaze/midiasm/encoding/midi"
 	"github.com/transcriptaze/midiasm/midi"
@@ -175,15 +176,10 @@ func writeTable(records [][]string, w io.Writer) error {
 		}
 	}
 
-	formats := make([]string, len(widths))
-	for i, w := range widths {
-		formats[i] = fmt.Sprintf("%%-%vv", w)
-	}
-
 	for _, record := range records {
 		row := []string{}
 		for i, f := range record {
-			row = append(row, fmt.Sprintf(formats[i], f))
+			row = append(row, f+strings.Repeat(" ", widths[i]-utf8.RuneCountInString(f)))
 		}
 
 		if _, err := fmt.Fprintf(w, "%v\n", strings.Join(row, "  ")); err != nil {
-- 
2.43.0

