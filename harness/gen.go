package harness

import (
	"bytes"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// ---- scalars -----------------------------------------------------------------------------------------

func pick[T any](t *rapid.T, label string, list ...T) T {
	return list[rapid.IntRange(0, len(list)-1).Draw(t, label)]
}

// chance is true n times out of d; it shrinks to false.
func chance(t *rapid.T, label string, n, d int) bool {
	return rapid.IntRange(0, d-1).Draw(t, label) >= d-n
}

var deltaEdges = []uint32{0, 1, 63, 64, 126, 127, 128, 129, 255, 256, 480, 8191, 8192, 16382, 16383, 16384, 16385, 32768, 65535, 65536, 1048575, 1048576, 2097150, 2097151, 2097152, 2097153, 0x0ffffffe, 0x0fffffff}

func genDelta(t *rapid.T) uint32 {
	switch rapid.IntRange(0, 9).Draw(t, "delta-class") {
	case 0, 1, 2:
		return 0
	case 3, 4, 5:
		return rapid.Uint32Range(0, 2000).Draw(t, "delta")
	case 6:
		return rapid.Uint32Range(0, 100000).Draw(t, "delta")
	case 7:
		return rapid.Uint32Range(0, 0x0fffffff).Draw(t, "delta")
	default:
		return pick(t, "delta", deltaEdges...)
	}
}

// gen7 draws a value in [0..127], with a bias to the ends.
func gen7(t *rapid.T, label string) int {
	if chance(t, label+"?", 1, 4) {
		return pick(t, label, 0, 1, 63, 64, 126, 127)
	}
	return rapid.IntRange(0, 127).Draw(t, label)
}

func genChannel(t *rapid.T) int { return rapid.IntRange(0, 15).Draw(t, "channel") }

// tile builds long data from a short pattern so that long strings stay cheap to draw and to shrink.
func tile(pattern []byte, n int) []byte {
	if len(pattern) == 0 {
		pattern = []byte{'x'}
	}
	b := bytes.Repeat(pattern, n/len(pattern)+1)
	return b[:n]
}

var lengthEdges = []int{1, 2, 5, 30, 63, 64, 126, 127, 128, 129, 200, 255, 256, 257, 1000, 4096, 8191, 16383, 16384, 16385}

func genLength(t *rapid.T, label string, long bool) int {
	switch rapid.IntRange(0, 19).Draw(t, label+"-class") {
	case 0, 1, 2:
		return 0
	case 17:
		if long {
			return pick(t, label, lengthEdges...)
		}
		return pick(t, label, lengthEdges[:9]...)
	case 18:
		return pick(t, label, lengthEdges[:12]...)
	case 19:
		if long && chance(t, label+"-huge", 1, 20) {
			return rapid.IntRange(16380, 70000).Draw(t, label)
		}
		return rapid.IntRange(1, 300).Draw(t, label)
	default:
		return rapid.IntRange(1, 20).Draw(t, label)
	}
}

// ---- text --------------------------------------------------------------------------------------------

type TextMode int

const (
	AnyBytes TextMode = iota // any bytes at all
	UTF8                     // any valid UTF-8
	Line                     // what a line of text can carry: no newlines, no leading white space, no trailing CR
	Plain                    // printable UTF-8
)

var lineRunes = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789   ,.:;/!?-+_()[]{}<>=*&^#@~|'\"\\%$`éßøñЖ中♭♯€𝄞😀")

var oddRunes = []rune("\x00\x01\x07\t\n\v\f\r\x1b\x7f\u0080\u0085\u00a0\u2028\u2029\ufeff\ufffd<>&\"\\\U0010ffff")

var snippets = []string{"MThd", "MTrk", "delta:10", "tick:0", "EndOfTrack", "NoteOn", "Tempo tempo:500000", "00 FF 2F 00", "%s %d %!", "{{.}}", "C major", "4/4, 24 ticks per click, 8/32 per quarter", "null", "\"tag\":\"Tempo\"", "%", "//", "…", "format:1", "channel:3", "manufacturer", "…  tick:0", "Text", "Lyric x", "Acoustic Piano", "f(x)=a:b", "[1]", "100%", "a  b   c", "#", ";", "--"}

func genText(t *rapid.T, mode TextMode, long bool) []byte {
	if chance(t, "text-snippet", 1, 8) {
		s := pick(t, "snippet", snippets...)
		if chance(t, "snippet2", 1, 3) {
			s += pick(t, "joiner", " ", "", ", ") + pick(t, "snippet2", snippets...)
		}
		return []byte(s)
	}
	n := genLength(t, "text-length", long)
	if n == 0 {
		return []byte{}
	}
	k := n
	if k > 24 {
		k = rapid.IntRange(1, 24).Draw(t, "pattern-length")
	}
	if (mode == AnyBytes || mode == Line) && chance(t, "text-binary", 1, 4) {
		b := tile(rapid.SliceOfN(rapid.Byte(), k, k).Draw(t, "text"), n)
		if mode == Line {
			b = asLine(b)
		}
		return b
	}
	rs := make([]rune, k)
	for i := range rs {
		if mode != Plain && chance(t, "odd", 1, 8) {
			rs[i] = pick(t, "rune", oddRunes...)
		} else {
			rs[i] = pick(t, "rune", lineRunes...)
		}
	}
	b := []byte(string(rs))
	if n > 24 {
		b = tile(b, n)
	}
	if mode == UTF8 || mode == Plain { // tiling may have cut a rune
		for !utf8.Valid(b) {
			b = b[:len(b)-1]
		}
	}
	if mode == Plain {
		b = bytes.TrimSpace(b)
	}
	if mode == Line {
		b = asLine(b)
	}
	return b
}

// asLine replaces newlines and removes leading white space and trailing CRs.
func asLine(b []byte) []byte {
	b = bytes.ReplaceAll(b, []byte("\n"), []byte("n"))
	return bytes.TrimRight(bytes.TrimLeft(b, "\t\n\v\f\r "), "\r")
}

// genKnownManufacturer draws the ID of a manufacturer that has a name.
func genKnownManufacturer(t *rapid.T) []byte { return pick(t, "manufacturer", makers...).ID }

func gen7bits(t *rapid.T, label string, long bool) []byte {
	n := genLength(t, label, long)
	k := n
	if k > 16 {
		k = rapid.IntRange(1, 16).Draw(t, label+"-pattern-length")
	}
	p := make([]byte, k)
	for i := range p {
		p[i] = byte(gen7(t, label))
	}
	return tile(p, n)
}

func genBytes(t *rapid.T, label string, long bool) []byte {
	n := genLength(t, label, long)
	k := n
	if k > 16 {
		k = rapid.IntRange(1, 16).Draw(t, label+"-pattern-length")
	}
	p := make([]byte, k)
	for i := range p {
		if chance(t, label+"-edge", 1, 4) {
			p[i] = pick(t, label, byte(0x00), 0x7f, 0x80, 0xf0, 0xf7, 0xff)
		} else {
			p[i] = rapid.Byte().Draw(t, label)
		}
	}
	return tile(p, n)
}

// ---- events ------------------------------------------------------------------------------------------

type Opts struct {
	Text         TextMode
	Manufacturer func(t *rapid.T) []byte // manufacturer IDs (default: any)
	Packets      bool                    // multi-packet SysEx messages
	SysExHigh    bool                    // high bytes in SysEx data
	Long         bool                    // long texts and data
	Only         []string                // restrict the kinds
	MaxTracks    int                     // default 5
	MaxEvents    int                     // default 25
	NoSMPTE      bool                    // metrical time only
	Formats      []int                   // default 0,1,2
	NoEOT        bool                    // tracks sometimes end without an EndOfTrack
	Delta        func(t *rapid.T) uint32
	MinTracks    int
	ManyTracks   bool
}

var allKinds = []string{
	"NoteOn", "NoteOff", "NoteOn", "NoteOff", "Controller", "ProgramChange", "PolyphonicPressure", "ChannelPressure", "PitchBend",
	"Text", "Copyright", "TrackName", "InstrumentName", "Lyric", "Marker", "CuePoint", "ProgramName", "DeviceName",
	"SequenceNumber", "MIDIChannelPrefix", "MIDIPort", "Tempo", "SMPTEOffset", "TimeSignature", "KeySignature",
	"SequencerSpecificEvent", "SysExMessage", "SysExEscape", "Controller", "NoteOn",
}

// genManufacturer draws any well formed manufacturer ID: one byte, or 00 and two bytes.
func genManufacturer(t *rapid.T) []byte {
	switch rapid.IntRange(0, 3).Draw(t, "manufacturer-class") {
	case 0:
		return []byte{pick(t, "manufacturer", byte(0x01), 0x41, 0x43, 0x7d, 0x7e, 0x7f, 0x47)}
	case 1:
		return []byte{byte(rapid.IntRange(1, 127).Draw(t, "manufacturer"))}
	case 2:
		return []byte{0, pick(t, "m1", byte(0x00), 0x20, 0x01, 0x21), byte(rapid.IntRange(0, 127).Draw(t, "m2"))}
	default:
		return []byte{0, byte(rapid.IntRange(0, 127).Draw(t, "m1")), byte(rapid.IntRange(0, 127).Draw(t, "m2"))}
	}
}

func genEvent(t *rapid.T, kind string, o Opts) Ev {
	e := Ev{Kind: kind}
	if o.Delta != nil {
		e.Delta = o.Delta(t)
	} else {
		e.Delta = genDelta(t)
	}
	if _, ok := channelStatus[kind]; ok {
		e.Ch = genChannel(t)
	}
	manufacturer := o.Manufacturer
	if manufacturer == nil {
		manufacturer = genManufacturer
	}
	switch {
	case isText(kind):
		e.D = genText(t, o.Text, o.Long)
	}
	switch kind {
	case "NoteOn", "NoteOff", "Controller":
		e.V = []int{gen7(t, "v0"), gen7(t, "v1")}
		if kind == "Controller" && chance(t, "bank-select", 1, 4) {
			e.V[0] = pick(t, "controller", 0, 32)
		}
	case "ProgramChange", "PolyphonicPressure", "ChannelPressure", "MIDIPort":
		e.V = []int{gen7(t, "v0")}
	case "PitchBend":
		if chance(t, "bend-edge", 1, 2) {
			e.V = []int{pick(t, "bend", 0, 1, 127, 128, 129, 255, 256, 8191, 8192, 8193, 16255, 16256, 16382, 16383)}
		} else {
			e.V = []int{rapid.IntRange(0, 16383).Draw(t, "bend")}
		}
	case "SequenceNumber":
		if chance(t, "sn-edge", 1, 2) {
			e.V = []int{pick(t, "sn", 0, 1, 127, 128, 255, 256, 32767, 32768, 65280, 65534, 65535)}
		} else {
			e.V = []int{rapid.IntRange(0, 65535).Draw(t, "sn")}
		}
	case "MIDIChannelPrefix":
		e.V = []int{genChannel(t)}
	case "Tempo":
		if chance(t, "tempo-edge", 1, 2) {
			e.V = []int{pick(t, "tempo", 500000, 1, 0, 127, 128, 255, 256, 65535, 65536, 1000000, 8388607, 8388608, 16777214, 16777215)}
		} else {
			e.V = []int{rapid.IntRange(0, 0xffffff).Draw(t, "tempo")}
		}
	case "SMPTEOffset":
		rate := pick(t, "rate", 24, 25, 29, 30)
		edge := func(label string, max int) int {
			if chance(t, label+"-edge", 1, 3) {
				return pick(t, label, 0, max)
			}
			return rapid.IntRange(0, max).Draw(t, label)
		}
		e.V = []int{edge("hour", 24), edge("minute", 59), edge("second", 59), rate, edge("frames", rate-1), edge("fractions", 100)}
	case "TimeSignature":
		num := rapid.IntRange(0, 255)
		b := func(label string) int {
			if chance(t, label+"-edge", 1, 4) {
				return pick(t, label, 0, 1, 127, 128, 255)
			}
			return num.Draw(t, label)
		}
		e.V = []int{b("numerator"), 1 << rapid.IntRange(0, 7).Draw(t, "denominator"), b("ticks"), b("32nds")}
	case "KeySignature":
		e.V = []int{rapid.IntRange(-7, 7).Draw(t, "accidentals"), rapid.IntRange(0, 1).Draw(t, "mode")}
	case "SequencerSpecificEvent":
		e.M, e.D = manufacturer(t), genBytes(t, "data", o.Long)
	case "SysExMessage":
		e.M, e.End = manufacturer(t), true
		if o.SysExHigh && chance(t, "sysex-high", 1, 3) {
			e.D = genBytes(t, "data", o.Long)
		} else {
			e.D = gen7bits(t, "data", o.Long)
		}
	case "SysExEscape":
		e.D = genBytes(t, "data", o.Long)
	}
	return e
}

// genTrack draws the events of a track, ending with an EndOfTrack.
func genTrack(t *rapid.T, o Opts) []Ev {
	kinds := o.Only
	if kinds == nil {
		kinds = allKinds
	}
	max := o.MaxEvents
	if max == 0 {
		max = 25
	}
	n := rapid.IntRange(0, max).Draw(t, "events")
	if chance(t, "big", 1, 40) {
		n = rapid.IntRange(max, max*8).Draw(t, "events")
	}
	if o.Delta == nil && chance(t, "huge-deltas", 1, 25) { // ticks beyond 32 bits
		o.Delta = func(t *rapid.T) uint32 { return pick(t, "delta", uint32(0x0fffffff), 0x0ffffffe, 0x0f000000, 0) }
		n = rapid.IntRange(16, 60).Draw(t, "events")
	}
	list := []Ev{}
	open := false
	last := -1 // last channel event
	for i := 0; i < n; i++ {
		kind := pick(t, "kind", kinds...)
		again := chance(t, "again", 1, 12)
		repeat := last == len(list)-1 && last >= 0 && chance(t, "repeat", 1, 2)
		if repeat {
			kind = list[last].Kind
		}
		if open && (kind == "SysExMessage" || kind == "SysExEscape") {
			d := gen7bits(t, "packet", o.Long)
			e := Ev{Kind: "SysExContinuation", Delta: genDelta(t), D: d, End: chance(t, "end", 1, 2)}
			if o.Delta != nil {
				e.Delta = o.Delta(t)
			}
			if o.SysExHigh && chance(t, "packet-high", 1, 3) {
				e.D = genBytes(t, "packet", o.Long)
				if !e.End && len(e.D) > 0 && e.D[len(e.D)-1] == 0xf7 {
					e.D = e.D[:len(e.D)-1]
				}
				for !e.End && len(e.D) > 0 && e.D[len(e.D)-1] == 0xf7 {
					e.D = e.D[:len(e.D)-1]
				}
			}
			open = !e.End
			list = append(list, e)
			continue
		}
		e := genEvent(t, kind, o)
		if repeat {
			e.Ch = list[last].Ch
		}
		if again && len(list) > 0 { // an event that has been before, with its values and perhaps its delta
			x := list[len(list)-1]
			if !chance(t, "again-last", 1, 2) {
				x = list[rapid.IntRange(0, len(list)-1).Draw(t, "again-which")]
			}
			if strings.HasPrefix(x.Kind, "SysEx") && (open || !x.End || x.Kind != "SysExMessage") {
			} else {
				delta := e.Delta
				e = x
				e.D = append([]byte{}, x.D...)
				if !chance(t, "again-delta", 1, 2) {
					e.Delta = delta
				}
				if _, ok := channelStatus[e.Kind]; ok {
					last = len(list)
				}
				list = append(list, e)
				continue
			}
		}
		if _, ok := channelStatus[kind]; ok {
			last = len(list)
		}
		if kind == "SysExMessage" && o.Packets && chance(t, "multi-packet", 1, 2) {
			for len(e.D) > 0 && e.D[len(e.D)-1] == 0xf7 {
				e.D = e.D[:len(e.D)-1]
			}
			e.End = false
			open = true
		}
		list = append(list, e)
	}
	if open {
		e := Ev{Kind: "SysExContinuation", D: gen7bits(t, "packet", o.Long), End: true}
		list = append(list, e)
	}
	if !(o.NoEOT && chance(t, "no-eot", 1, 10)) {
		e := Ev{Kind: "EndOfTrack", Delta: genDelta(t)}
		if o.Delta != nil {
			e.Delta = o.Delta(t)
		}
		list = append(list, e)
	}
	return list
}

func genDivision(t *rapid.T, o Opts) int {
	if !o.NoSMPTE && chance(t, "smpte", 1, 5) {
		return pick(t, "fps", 0xe8, 0xe7, 0xe3, 0xe2)<<8 | pick(t, "subframes", rapid.IntRange(0, 255).Draw(t, "subframes-any"), 4, 8, 10, 40, 80, 100, 127, 128, 255)
	}
	if chance(t, "division-edge", 1, 2) {
		return pick(t, "division", 480, 96, 1, 24, 120, 127, 128, 192, 240, 255, 256, 960, 1920, 9600, 32766, 32767)
	}
	return rapid.IntRange(1, 0x7fff).Draw(t, "division")
}

func genFile(t *rapid.T, o Opts) File {
	formats := o.Formats
	if formats == nil {
		formats = []int{1, 0, 2}
	}
	f := File{Format: pick(t, "format", formats...), Division: genDivision(t, o)}
	max := o.MaxTracks
	if max == 0 {
		max = 5
	}
	n := rapid.IntRange(o.MinTracks, max).Draw(t, "tracks")
	if o.ManyTracks && chance(t, "many-tracks", 1, 50) {
		n = pick(t, "tracks", 16, 127, 128, 255, 256, 257, 300)
		o.MaxEvents = 2
		o.Long = false
	}
	if f.Format == 0 && n > 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		if i > 0 && chance(t, "same-track", 1, 20) {
			f.Tracks = append(f.Tracks, append([]Ev{}, f.Tracks[i-1]...))
			continue
		}
		f.Tracks = append(f.Tracks, genTrack(t, o))
	}
	return f
}

// ---- encodings ---------------------------------------------------------------------------------------

type AlienChunk struct {
	At   int
	Tag  string
	Data []byte
}

// Enc holds the choices that the SMF format leaves to a writer; they are used in rotation.
type Enc struct {
	Run   []bool
	Pad   []int
	Alien []AlienChunk
}

func (e Enc) style() Style {
	s := Style{}
	i, j := 0, 0
	if len(e.Run) > 0 {
		s.Running = func() bool { i++; return e.Run[i%len(e.Run)] }
	}
	if len(e.Pad) > 0 {
		s.Pad = func() int { j++; return e.Pad[j%len(e.Pad)] }
	}
	if len(e.Alien) > 0 {
		s.Alien = func(i int) []byte {
			var b []byte
			for _, a := range e.Alien {
				if a.At == i {
					b = append(b, chunk(a.Tag, a.Data)...)
				}
			}
			return b
		}
	}
	return s
}

func (e Enc) encode(f File) ([]byte, [][][]byte) {
	b, raw := encode(f, e.style())
	for _, a := range e.Alien { // after the last track
		if a.At >= len(f.Tracks) {
			b = append(b, chunk(a.Tag, a.Data)...)
		}
	}
	return b, raw
}

var alienTags = []string{"XFIH", "XFKM", "MTrX", "mtrk", "MThX", "    ", "Mtrk", "MTrK", "abcd", "\x00\x00\x00\x00", "\xff\xff\xff\xff", "RIFF"}

func genEnc(t *rapid.T, f File) Enc {
	e := Enc{}
	switch rapid.IntRange(0, 3).Draw(t, "running-style") {
	case 1, 2:
		e.Run = []bool{true}
	case 3:
		e.Run = rapid.SliceOfN(rapid.Bool(), 1, 7).Draw(t, "running")
	}
	if chance(t, "padded", 1, 4) {
		e.Pad = rapid.SliceOfN(rapid.IntRange(0, 3), 1, 5).Draw(t, "pad")
	}
	if chance(t, "alien", 1, 5) {
		n := rapid.IntRange(1, 3).Draw(t, "aliens")
		for i := 0; i < n; i++ {
			a := AlienChunk{At: rapid.IntRange(0, len(f.Tracks)).Draw(t, "at"), Tag: pick(t, "tag", alienTags...)}
			switch rapid.IntRange(0, 3).Draw(t, "alien-data") {
			case 1:
				a.Data = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "data")
			case 2:
				a.Data = chunk("MTrk", []byte{0x00, 0xff, 0x2f, 0x00})
			case 3:
				a.Data = tile([]byte{1, 2, 3}, pick(t, "alien-length", 127, 128, 255, 256, 5000, 70000))
			}
			e.Alien = append(e.Alien, a)
		}
	}
	return e
}
