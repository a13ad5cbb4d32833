// Package harness holds an independent model of a Standard MIDI File, a reference encoder and parser for
// it, generators, and one property test per listed property. It shares no code with the tree under test.
package harness

import (
	"bytes"
	"fmt"
	"strings"
)

// Ev is one event. The meaning of V depends on the kind:
//
//	SequenceNumber [n]; Tempo [µs/quarter]; MIDIChannelPrefix [channel]; MIDIPort [port]
//	SMPTEOffset [hour minute second rate frames fractions]; TimeSignature [num den ticks 32nds]
//	KeySignature [accidentals mode]; NoteOn/NoteOff [note velocity]; PolyphonicPressure [pressure]
//	Controller [id value]; ProgramChange [program]; ChannelPressure [pressure]; PitchBend [bend]
type Ev struct {
	Kind  string
	Delta uint32
	Ch    int
	V     []int
	D     []byte // text or (unterminated) sysex data
	M     []byte // manufacturer ID
	End   bool   // sysex message/continuation ends with F7
}

type File struct {
	Format   int
	Division int
	Tracks   [][]Ev
}

var textKinds = []string{"Text", "Copyright", "TrackName", "InstrumentName", "Lyric", "Marker", "CuePoint", "ProgramName", "DeviceName"}

var metaTypes = map[string]byte{
	"SequenceNumber": 0x00, "Text": 0x01, "Copyright": 0x02, "TrackName": 0x03, "InstrumentName": 0x04, "Lyric": 0x05,
	"Marker": 0x06, "CuePoint": 0x07, "ProgramName": 0x08, "DeviceName": 0x09, "MIDIChannelPrefix": 0x20, "MIDIPort": 0x21,
	"EndOfTrack": 0x2f, "Tempo": 0x51, "SMPTEOffset": 0x54, "TimeSignature": 0x58, "KeySignature": 0x59, "SequencerSpecificEvent": 0x7f,
}

var channelStatus = map[string]byte{
	"NoteOff": 0x80, "NoteOn": 0x90, "PolyphonicPressure": 0xa0, "Controller": 0xb0, "ProgramChange": 0xc0, "ChannelPressure": 0xd0, "PitchBend": 0xe0,
}

func isText(kind string) bool {
	for _, k := range textKinds {
		if k == kind {
			return true
		}
	}
	return false
}

func (e Ev) status() byte {
	if s, ok := channelStatus[e.Kind]; ok {
		return s | byte(e.Ch)
	}
	switch e.Kind {
	case "SysExMessage":
		return 0xf0
	case "SysExContinuation", "SysExEscape":
		return 0xf7
	}
	return 0xff
}

func (e Ev) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "+%d %s", e.Delta, e.Kind)
	if _, ok := channelStatus[e.Kind]; ok {
		fmt.Fprintf(&b, " ch:%d", e.Ch)
	}
	if len(e.V) > 0 {
		fmt.Fprintf(&b, " %v", e.V)
	}
	if len(e.M) > 0 {
		fmt.Fprintf(&b, " id:% X", e.M)
	}
	if isText(e.Kind) {
		fmt.Fprintf(&b, " %s", clip(fmt.Sprintf("%q", e.D), 80))
	} else if len(e.D) > 0 {
		fmt.Fprintf(&b, " data:%s", clip(fmt.Sprintf("% X", e.D), 80))
	}
	if e.End {
		b.WriteString(" end")
	}
	return b.String()
}

func clip(s string, n int) string {
	if len(s) > n {
		return fmt.Sprintf("%s…(%d)", s[:n], len(s))
	}
	return s
}

func (f File) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "format:%d division:%04X tracks:%d", f.Format, f.Division, len(f.Tracks))
	for i, t := range f.Tracks {
		fmt.Fprintf(&b, "\n track %d", i)
		for j, e := range t {
			if j > 60 {
				fmt.Fprintf(&b, "\n   … %d events", len(t))
				break
			}
			fmt.Fprintf(&b, "\n   %v", e)
		}
	}
	return b.String()
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqEv(a, b Ev) bool {
	return a.Kind == b.Kind && a.Delta == b.Delta && a.Ch == b.Ch && eqInts(a.V, b.V) && bytes.Equal(a.D, b.D) && bytes.Equal(a.M, b.M) && a.End == b.End
}

// diff returns "" if the files are the same and otherwise the first difference.
func diff(want, got File) string {
	if want.Format != got.Format {
		return fmt.Sprintf("format: expected %d, got %d", want.Format, got.Format)
	}
	if want.Division != got.Division {
		return fmt.Sprintf("division: expected %04X, got %04X", want.Division, got.Division)
	}
	if len(want.Tracks) != len(got.Tracks) {
		return fmt.Sprintf("tracks: expected %d, got %d", len(want.Tracks), len(got.Tracks))
	}
	for i := range want.Tracks {
		if d := diffTrack(want.Tracks[i], got.Tracks[i]); d != "" {
			return fmt.Sprintf("track %d: %s", i, d)
		}
	}
	return ""
}

func diffTrack(want, got []Ev) string {
	for j := range want {
		if j >= len(got) {
			return fmt.Sprintf("expected %d events, got %d (missing %v)", len(want), len(got), want[j])
		}
		if !eqEv(want[j], got[j]) {
			return fmt.Sprintf("event %d: expected %v, got %v", j, want[j], got[j])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("expected %d events, got %d (extra %v)", len(want), len(got), got[len(want)])
	}
	return ""
}

func (f File) events() int {
	n := 0
	for _, t := range f.Tracks {
		n += len(t)
	}
	return n
}
