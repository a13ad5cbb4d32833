package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/context"
	"pgregory.net/rapid"
)

// C28: a header or a track chunk on its own.

type ChunkCase struct {
	B     []byte
	Track bool
	Used  []byte // a header that was decoded into the same variable before, if any
	Note  string
}

func (c ChunkCase) String() string {
	return fmt.Sprintf("track:%v (%s) after % X: % X", c.Track, c.Note, c.Used, c.B)
}

func checkChunk(c ChunkCase, o *Obs) error {
	o.Label(true, c.Note)
	o.Nontrivial(len(c.B) >= 8)
	if c.Track {
		return checkTrackChunk(c, o)
	}
	var h midi.MThd
	if len(c.Used) > 0 {
		if err := h.UnmarshalBinary(bytes.Clone(c.Used)); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
	}
	buffer := bytes.Clone(c.B)
	err := h.UnmarshalBinary(buffer)
	for i := range buffer { // the caller's to use again
		buffer[i] ^= 0xa5
	}
	format, tracks, division, ok := 0, 0, 0, false
	if len(c.B) >= 14 && bytes.HasPrefix(c.B, []byte("MThd\x00\x00\x00\x06")) {
		format, tracks, division = int(binary.BigEndian.Uint16(c.B[8:])), int(binary.BigEndian.Uint16(c.B[10:])), int(binary.BigEndian.Uint16(c.B[12:]))
		ok = format < 3 && (division < 0x8000 || bytes.IndexByte([]byte{0xe8, 0xe7, 0xe3, 0xe2}, byte(division>>8)) >= 0)
	}
	o.Label(ok, "header: well formed")
	o.Label(!ok, "header: malformed")
	switch {
	case ok && err != nil:
		if len(c.B) > 14 { // what follows the header may or may not be rejected
			return nil
		}
		return fmt.Errorf("well formed header rejected: %v", err)
	case !ok && err == nil:
		return fmt.Errorf("malformed header accepted: %+v", h)
	case !ok:
		return nil
	}
	same := func(how string, h midi.MThd) error {
		if h.Tag != "MThd" || h.Length != 6 || int(h.Format) != format || int(h.Tracks) != tracks || int(h.Division) != division {
			return fmt.Errorf("%s: expected format %d, %d tracks, division %04X, got %+v", how, format, tracks, division, h)
		}
		want := midi.MThd{}
		if division < 0x8000 {
			want.PPQN = uint16(division)
		} else {
			want.SMPTETimeCode, want.SubFrames, want.FPS, want.DropFrame = true, uint16(division&0xff), uint8(256-division>>8), division>>8 == 0xe3
		}
		if h.SMPTETimeCode != want.SMPTETimeCode || h.PPQN != want.PPQN || h.SubFrames != want.SubFrames || h.FPS != want.FPS || h.DropFrame != want.DropFrame {
			return fmt.Errorf("%s: division %04X, got %+v", how, division, h)
		}
		if how == "decoded" && !bytes.HasPrefix(h.Bytes, c.B[:14]) {
			return fmt.Errorf("%s: expected % X, has the bytes % X", how, c.B[:14], h.Bytes)
		}
		b, err := h.MarshalBinary()
		if err != nil || !bytes.Equal(b, c.B[:14]) {
			return fmt.Errorf("%s: expected % X, encoded as % X (%v)", how, c.B[:14], b, err)
		}
		return nil
	}
	if err := same("decoded", h); err != nil {
		return err
	}
	return same("made", midi.MakeMThd(uint16(format), uint16(tracks), uint16(division)))
}

func checkTrackChunk(c ChunkCase, o *Obs) error {
	x := midi.MTrk{Context: context.NewContext()}
	err := x.UnmarshalBinary(bytes.Clone(c.B))
	if len(c.B) < 8 || string(c.B[:4]) != "MTrk" {
		o.Label(true, "track: not a track chunk")
		if err == nil {
			return fmt.Errorf("accepted, but it is not a track chunk")
		}
		return nil
	}
	if binary.BigEndian.Uint32(c.B[4:]) != uint32(len(c.B)-8) { // a length that disagrees: up to the tree
		return nil
	}
	want, refErr := refParseTrack(c.B[8:], false)
	o.Label(refErr == nil, "track: well formed")
	o.Label(refErr != nil, "track: malformed")
	if (err == nil) != (refErr == nil) {
		return fmt.Errorf("expected error %v, got %v", refErr, err)
	}
	if err != nil {
		return nil
	}
	if len(x.Events) != len(want) {
		return fmt.Errorf("expected %d events, got %d", len(want), len(x.Events))
	}
	tick := uint64(0)
	for i, e := range x.Events {
		got, n, err := adaptEvent(e.Event)
		if err != nil {
			return err
		}
		tick += uint64(want[i].Delta)
		if !eqEv(want[i], got) || n.Tick != tick {
			return fmt.Errorf("event %d: expected %v at %d, got %v at %d", i, want[i], tick, got, n.Tick)
		}
	}
	if x.Tag != "MTrk" || int(x.Length) != len(c.B)-8 || !bytes.Equal(x.Bytes, c.B) {
		return fmt.Errorf("tag %q, length %d, bytes % X", x.Tag, x.Length, []byte(x.Bytes))
	}
	return nil
}

func genChunk(t *rapid.T) ChunkCase {
	c := ChunkCase{Track: rapid.Bool().Draw(t, "track")}
	if c.Track {
		if chance(t, "raw", 1, 3) {
			f := genRawFile(t)
			c.B, c.Note = f.B[14:], "track of raw bytes"
		} else {
			x := genCase(t, Opts{Text: AnyBytes, Packets: true, SysExHigh: true, MinTracks: 1, MaxTracks: 1, MaxEvents: 12, NoEOT: true})
			x.E.Alien = nil
			b, _ := x.E.encode(x.F)
			c.B, c.Note = b[14:], "track"
			if chance(t, "mutated", 2, 3) {
				c.Note = "mutated track"
				c.B = append(bytes.Clone(c.B[:8]), mutate(t, c.B[8:])...)
				binary.BigEndian.PutUint32(c.B[4:], uint32(len(c.B)-8))
			}
		}
	} else {
		h := func(label string) []byte {
			return header(File{Format: rapid.IntRange(0, 2).Draw(t, label+"-format"), Division: genDivision(t, Opts{})}, pick(t, label+"-tracks", 1, 0, 2, 255, 256, 65535, rapid.IntRange(0, 65535).Draw(t, label+"-any")))
		}
		c.B, c.Note = h("header"), "header"
		if rapid.Bool().Draw(t, "used") {
			c.Used = h("used")
		}
		if rapid.Bool().Draw(t, "mutated") {
			c.Note = "mutated header"
			c.B = mutate(t, c.B)
		}
	}
	if chance(t, "cut", 1, 10) {
		c.Note = "truncated"
		c.B = c.B[:rapid.IntRange(0, min(len(c.B), 16)).Draw(t, "length")]
	}
	return c
}

func init() {
	property("C28", "chunk", 200000, 4000000, genChunk, checkChunk)
	enumeration("C28", "divisions", func(tier string, yield func(ChunkCase)) {
		for d := 0; d < 0x10000; d++ { // every division
			h := header(File{Format: d % 3, Division: d}, d)
			yield(ChunkCase{B: h, Note: "every division"})
		}
		h := header(File{Format: 1, Division: 96}, 1)
		for n := 0; n < len(h); n++ {
			yield(ChunkCase{B: h[:n], Note: "every prefix"})
			yield(ChunkCase{B: append([]byte("MTrk"), h[4:n+min(4, 14-n)]...), Track: true, Note: "every prefix"})
		}
	}, checkChunk)
}
