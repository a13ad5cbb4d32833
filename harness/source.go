package harness

import (
	"encoding/json"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// An independent writer of assembler sources (text and JSON).

var majorKeys = []string{"C♭", "G♭", "D♭", "A♭", "E♭", "B♭", "F", "C", "G", "D", "A", "E", "B", "F♯", "C♯"}
var minorKeys = []string{"A♭", "E♭", "B♭", "F", "C", "G", "D", "A", "E", "B", "F♯", "C♯", "G♯", "D♯", "A♯"}

func keyName(accidentals, mode int) string {
	if mode == 0 {
		return majorKeys[accidentals+7] + " major"
	}
	return minorKeys[accidentals+7] + " minor"
}

var sharpNames = []string{"C", "C♯", "D", "D♯", "E", "F", "F♯", "G", "G♯", "A", "A♯", "B"}
var flatNames = []string{"C", "D♭", "D", "E♭", "E", "F", "G♭", "G", "A♭", "A", "B♭", "B"}

// octave of a note: middle C (60) is C4, or C3 with the alternative convention.
func octave(note int, c4 bool) int {
	if c4 {
		return note/12 - 2
	}
	return note/12 - 1
}

func noteName(note int, flats, c4 bool) string {
	if flats {
		return fmt.Sprintf("%s%d", flatNames[note%12], octave(note, c4))
	}
	return fmt.Sprintf("%s%d", sharpNames[note%12], octave(note, c4))
}

// spellings returns all the names of a note that the source format admits.
func spellings(note int, c4 bool) []string {
	list := []string{noteName(note, false, c4), noteName(note, true, c4)}
	o := octave(note, c4)
	switch note % 12 {
	case 11:
		if o+1 <= 9 {
			list = append(list, fmt.Sprintf("C♭%d", o+1))
		}
	case 0:
		if note > 0 {
			list = append(list, fmt.Sprintf("B♯%d", o-1))
		}
	case 4:
		list = append(list, fmt.Sprintf("F♭%d", o))
	case 5:
		list = append(list, fmt.Sprintf("E♯%d", o))
	}
	return list
}

// Layout holds the choices left to the author of a text source, used in rotation.
type Layout struct {
	Hex      bool
	Tick     bool
	Type     bool
	CRLF     bool
	NoFinal  bool
	Spell    []int
	Spaces   []int
	Comments []int // number of comment or blank lines before each line
	Preamble int
	HexCase  bool
	Metrical int
	Tabs     bool // tabs instead of spaces
	HexSep   int  // between the bytes of SysEx data
	Lead     int  // white space before an event
	Trail    int  // white space after an event (other than a text)
	Bank     int  // of a program change (which is not part of the MIDI file)
}

func genLayout(t *rapid.T) Layout {
	return Layout{
		Hex:      rapid.Bool().Draw(t, "hex"),
		Tick:     rapid.Bool().Draw(t, "tick"),
		Type:     rapid.Bool().Draw(t, "type"),
		CRLF:     chance(t, "crlf", 1, 4),
		NoFinal:  chance(t, "no-final-newline", 1, 4),
		Spell:    rapid.SliceOfN(rapid.IntRange(0, 2), 0, 5).Draw(t, "spell"),
		Spaces:   rapid.SliceOfN(rapid.IntRange(0, 4), 0, 5).Draw(t, "spaces"),
		Comments: rapid.SliceOfN(rapid.IntRange(0, 2), 0, 5).Draw(t, "comments"),
		Preamble: rapid.IntRange(0, 3).Draw(t, "preamble"),
		HexCase:  rapid.Bool().Draw(t, "hex-case"),
		Metrical: rapid.IntRange(0, 2).Draw(t, "metrical"),
		Tabs:     chance(t, "tabs", 1, 4),
		HexSep:   pick(t, "hex-separator", 0, 0, 0, 1, 2, 3),
		Lead:     pick(t, "lead", 0, 0, 0, 1, 2),
		Trail:    pick(t, "trail", 0, 0, 0, 1, 2),
		Bank:     pick(t, "bank", 0, 0, 1, 16383, rapid.IntRange(0, 16383).Draw(t, "bank-any")),
	}
}

type writer struct {
	l       Layout
	c4      bool
	i, j, k int
	lines   []string
}

func (w *writer) sp(min int) string {
	n := min
	if len(w.l.Spaces) > 0 {
		n += w.l.Spaces[w.i%len(w.l.Spaces)]
		w.i++
	}
	if w.l.Tabs {
		return strings.Repeat("\t", n)
	}
	return strings.Repeat(" ", n)
}

var margins = []string{"", "   ", "\t "}

func (w *writer) note(n int) string {
	list := spellings(n, w.c4)
	k := 0
	if len(w.l.Spell) > 0 {
		k = w.l.Spell[w.j%len(w.l.Spell)]
		w.j++
	}
	if k >= len(list) {
		k = 0
	}
	return list[k]
}

var commentLines = []string{"", "%% comment", "%% MTrk 0", "  ", "%%", "%% delta:10 NoteOn channel:0 note:C4, velocity:64", "%%MThd length:6, format:1", "\t"}

func (w *writer) line(s string) {
	if len(w.l.Comments) > 0 {
		for n := w.l.Comments[w.k%len(w.l.Comments)]; n > 0; n-- {
			w.lines = append(w.lines, commentLines[(w.k+n)%len(commentLines)])
		}
		w.k++
	}
	w.lines = append(w.lines, s)
}

func (w *writer) hex(b []byte) string {
	f := "%02X"
	if w.l.HexCase {
		f = "%02x"
	}
	list := []string{}
	for _, v := range b {
		list = append(list, fmt.Sprintf(f, v))
	}
	return strings.Join(list, " ")
}

// data writes SysEx data as hexadecimal, which may have any white space between the bytes.
func (w *writer) data(b []byte) string {
	return strings.ReplaceAll(w.hex(b), " ", []string{" ", "", "\t", "  \t"}[w.l.HexSep])
}

func makerName(id []byte) string {
	for _, m := range makers {
		if string(m.ID) == string(id) {
			return m.Name
		}
	}
	return ""
}

func (w *writer) content(e Ev) string {
	switch e.Kind {
	case "SequenceNumber", "MIDIChannelPrefix", "MIDIPort":
		return fmt.Sprint(e.V[0])
	case "EndOfTrack":
		return ""
	case "Tempo":
		return fmt.Sprintf("tempo:%d", e.V[0])
	case "SMPTEOffset":
		return fmt.Sprintf("%d%s%d%s%d%s%d%s%d%s%d", e.V[0], w.sp(1), e.V[1], w.sp(1), e.V[2], w.sp(1), e.V[3], w.sp(1), e.V[4], w.sp(1), e.V[5])
	case "TimeSignature":
		return fmt.Sprintf("%d/%d, %d ticks per click,%s%d/32 per quarter", e.V[0], e.V[1], e.V[2], w.sp(1), e.V[3])
	case "KeySignature":
		return keyName(e.V[0], e.V[1])
	case "NoteOn", "NoteOff":
		return fmt.Sprintf("channel:%d%snote:%s,%svelocity:%d", e.Ch, w.sp(1), w.note(e.V[0]), w.sp(0), e.V[1])
	case "PolyphonicPressure", "ChannelPressure":
		return fmt.Sprintf("channel:%d%spressure:%d", e.Ch, w.sp(1), e.V[0])
	case "Controller":
		return fmt.Sprintf("channel:%d%s%d/%s, value:%d", e.Ch, w.sp(1), e.V[0], controllerNames[e.V[0]], e.V[1])
	case "ProgramChange":
		return fmt.Sprintf("channel:%d%sbank:%d,%sprogram:%d", e.Ch, w.sp(1), w.l.Bank, w.sp(0), e.V[0])
	case "PitchBend":
		return fmt.Sprintf("channel:%d%sbend:%d", e.Ch, w.sp(1), e.V[0])
	case "SysExMessage", "SequencerSpecificEvent":
		return makerName(e.M) + "," + w.sp(1) + w.data(e.D)
	case "SysExContinuation", "SysExEscape":
		return w.data(e.D)
	default:
		return string(e.D)
	}
}

func (w *writer) event(e Ev, tick uint64) string {
	b := &strings.Builder{}
	b.WriteString(margins[w.l.Lead])
	if w.l.Hex {
		_, raw := encodeTrack([]Ev{e}, plain())
		b.WriteString(clip(w.hex(raw[0]), 38) + "  ")
	}
	if w.l.Tick {
		fmt.Fprintf(b, "tick:%d  ", tick)
	}
	fmt.Fprintf(b, "delta:%d%s", e.Delta, w.sp(1))
	if w.l.Type {
		if t, ok := metaTypes[e.Kind]; ok {
			fmt.Fprintf(b, "%02X ", t)
		} else {
			fmt.Fprintf(b, "%02X ", e.status())
		}
	}
	b.WriteString(e.Kind)
	if e.Kind != "EndOfTrack" {
		b.WriteString(w.sp(1))
		b.WriteString(w.content(e))
	}
	if !isText(e.Kind) {
		b.WriteString(margins[w.l.Trail])
	}
	return b.String()
}

func (w *writer) headerLine(f File, format, division string) string {
	s := ""
	if w.l.Hex {
		s = w.hex(header(f, len(f.Tracks))) + "   "
	}
	if format == "" {
		format = fmt.Sprint(f.Format)
	}
	if division == "" {
		if f.Division > 0x7fff {
			division = fmt.Sprintf("SMPTE:%d fps,%d sub-frames", 256-f.Division>>8, f.Division&0xff)
		} else {
			division = fmt.Sprintf("%s:%d ppqn", []string{"metrical time", "metrical-time", "metricaltime"}[w.l.Metrical], f.Division)
		}
	}
	return fmt.Sprintf("%sMThd length:6, format:%s, tracks:%d, %s", s, format, len(f.Tracks), division)
}

// textSource writes a file as text.
func textSource(f File, l Layout, c4 bool) []string {
	w := &writer{l: l, c4: c4}
	for i := 0; i < l.Preamble; i++ {
		w.lines = append(w.lines, []string{"%% a comment", "", "%% MThd and MTrk"}[i%3])
	}
	w.line(w.headerLine(f, "", ""))
	for i, t := range f.Tracks {
		s := ""
		if l.Hex {
			s = "4D 54 72 6B 00 00 00 10…                    "
		}
		w.line(fmt.Sprintf("%sMTrk %d length:0", s, i))
		tick := uint64(0)
		for _, e := range t {
			tick += uint64(e.Delta)
			w.line(w.event(e, tick))
		}
	}
	return w.lines
}

func joinLines(lines []string, l Layout) string {
	nl := "\n"
	if l.CRLF {
		nl = "\r\n"
	}
	s := strings.Join(lines, nl)
	if !l.NoFinal {
		s += nl
	}
	return s
}

// ---- JSON --------------------------------------------------------------------------------------------

type obj = map[string]any

func ints(b []byte) []int {
	list := []int{}
	for _, v := range b {
		list = append(list, int(v))
	}
	return list
}

var textFields = map[string]string{"Text": "text", "Copyright": "copyright", "TrackName": "name", "InstrumentName": "name", "Lyric": "lyric", "Marker": "marker", "CuePoint": "cuepoint", "ProgramName": "name", "DeviceName": "name"}

// jsonEvent writes an event with only the fields that an assembler needs.
func jsonEvent(e Ev) obj {
	o := obj{"tag": e.Kind, "delta": e.Delta}
	if _, ok := channelStatus[e.Kind]; ok {
		o["channel"] = e.Ch
	}
	switch e.Kind {
	case "SequenceNumber":
		o["sequence-number"] = e.V[0]
	case "MIDIChannelPrefix":
		o["channel"] = e.V[0]
	case "MIDIPort":
		o["port"] = e.V[0]
	case "EndOfTrack":
	case "Tempo":
		o["tempo"] = e.V[0]
	case "SMPTEOffset":
		for i, k := range []string{"hour", "minute", "second", "frame-rate", "frames", "fractional-frames"} {
			o[k] = e.V[i]
		}
	case "TimeSignature":
		for i, k := range []string{"numerator", "denominator", "ticks-per-click", "thirty-seconds-per-quarter"} {
			o[k] = e.V[i]
		}
	case "KeySignature":
		o["accidentals"], o["key-type"] = e.V[0], e.V[1]
	case "NoteOn", "NoteOff":
		o["note"], o["velocity"] = obj{"value": e.V[0]}, e.V[1]
	case "PolyphonicPressure", "ChannelPressure":
		o["pressure"] = e.V[0]
	case "Controller":
		o["controller"], o["value"] = obj{"id": e.V[0]}, e.V[1]
	case "ProgramChange":
		o["program"] = e.V[0]
	case "PitchBend":
		o["bend"] = e.V[0]
	case "SysExMessage":
		o["manufacturer"], o["data"], o["single"] = obj{"id": ints(e.M)}, ints(e.D), e.End
	case "SequencerSpecificEvent":
		o["manufacturer"], o["data"] = obj{"id": ints(e.M)}, ints(e.D)
	case "SysExContinuation":
		o["data"], o["end"] = ints(e.D), e.End
	case "SysExEscape":
		o["data"] = ints(e.D)
	default:
		o[textFields[e.Kind]] = string(e.D)
	}
	return o
}

func jsonSource(f File, indent bool) []byte {
	h := obj{"tag": "MThd", "format": f.Format, "PPQN": f.Division}
	if f.Division > 0x7fff {
		h["PPQN"], h["Division"] = 0, f.Division
	}
	return jsonDocument(h, f, indent, func(e Ev) any { return jsonEvent(e) })
}

func jsonDocument(h obj, f File, indent bool, event func(e Ev) any) []byte {
	tracks := []obj{}
	for _, t := range f.Tracks {
		list := []obj{}
		for _, e := range t {
			list = append(list, obj{"event": event(e)})
		}
		tracks = append(tracks, obj{"tag": "MTrk", "events": list})
	}
	doc := obj{"header": h, "tracks": tracks}
	var b []byte
	var err error
	if indent {
		b, err = json.MarshalIndent(doc, "", "  ")
	} else {
		b, err = json.Marshal(doc)
	}
	if err != nil {
		panic(err)
	}
	return b
}
