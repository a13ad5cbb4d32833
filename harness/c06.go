package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/transcriptaze/midiasm/ops/assemble"
	"pgregory.net/rapid"
)

// C06: a source with a value that a MIDI file cannot hold is rejected.

type BadCase struct {
	F     File
	L     Layout
	C4    bool
	Track int
	At    int    // position of the bad event
	Kind  string // kind of the bad event, or "header"
	Field string // which field is out of range
	Value string // the value, as written
	JSON  bool
	Base  *Ev // the event that has the bad value, with its other values; nil for a plain one
}

func (c BadCase) String() string {
	return fmt.Sprintf("JSON:%v C4:%v %s with invalid %s:%s in track %d at %d of %v", c.JSON, c.C4, c.Kind, c.Field, c.Value, c.Track, c.At, c.F)
}

var tooBig = []string{"256", "257", "300", "511", "512", "1000", "65535", "65536", "65600", "1000000", "16777216", "16777217", "4294967295", "4294967296", "4294967360", "18446744073709551615", "18446744073709551616", "99999999999999999999999"}

// beyond returns the values over a maximum.
func beyond(max int, more ...string) []string {
	list := append([]string{fmt.Sprint(max + 1), fmt.Sprint(max + 2), fmt.Sprint(2*max + 1)}, more...)
	for _, s := range tooBig {
		if len(s) > 9 {
			list = append(list, s)
		} else {
			n := 0
			fmt.Sscan(s, &n)
			if n > max {
				list = append(list, s)
			}
		}
	}
	return list
}

type badField struct {
	kind   string
	field  string
	text   func(v string, c4 bool) string // the content of the event; "" if the field does not apply to text
	json   func(o obj, v any)
	values []string
	raw    bool // JSON values are given as they are
}

func channelField(kind, text string) badField {
	return badField{kind: kind, field: "channel", values: beyond(15, "-1", "127", "128", "255", "240"),
		text: func(v string, c4 bool) string { return "channel:" + v + " " + text },
		json: func(o obj, v any) { o["channel"] = v }}
}

func simple(kind, field string, max int, format string) badField {
	return badField{kind: kind, field: field, values: beyond(max, "-1", "-128"),
		text: func(v string, c4 bool) string { return fmt.Sprintf(format, v) },
		json: func(o obj, v any) { o[field] = v }}
}

var badNotes = map[bool][]string{
	false: {"G♯9", "A♭9", "A9", "A♯9", "B9", "B♯9", "C-2", "B-2", "C-5", "C♭-1", "G-9"},
	true:  {"G♯8", "A8", "B♭8", "B8", "B♯8", "C9", "G9", "B9", "C-3", "B-3", "C♭-2", "C-9"},
}

var badFields = func() []badField {
	list := []badField{
		channelField("NoteOn", "note:C4, velocity:64"), channelField("NoteOff", "note:C4, velocity:64"),
		channelField("PolyphonicPressure", "pressure:1"), channelField("ChannelPressure", "pressure:1"),
		channelField("Controller", "7/Volume, value:1"), channelField("ProgramChange", "bank:0, program:1"), channelField("PitchBend", "bend:1"),
		simple("NoteOn", "velocity", 127, "channel:1 note:C4, velocity:%s"),
		simple("NoteOff", "velocity", 127, "channel:1 note:C4, velocity:%s"),
		simple("PolyphonicPressure", "pressure", 127, "channel:1 pressure:%s"),
		simple("ChannelPressure", "pressure", 127, "channel:1 pressure:%s"),
		simple("Controller", "value", 127, "channel:1 7/Volume, value:%s"),
		simple("ProgramChange", "program", 127, "channel:1 bank:0, program:%s"),
		simple("PitchBend", "bend", 16383, "channel:1 bend:%s"),
		simple("SequenceNumber", "sequence-number", 65535, "%s"),
		simple("MIDIChannelPrefix", "channel", 15, "%s"),
		simple("MIDIPort", "port", 127, "%s"),
		simple("Tempo", "tempo", 0xffffff, "tempo:%s"),
		simple("SMPTEOffset", "hour", 24, "%s 0 0 25 0 0"),
		simple("SMPTEOffset", "minute", 59, "1 %s 0 25 0 0"),
		simple("SMPTEOffset", "second", 59, "1 0 %s 25 0 0"),
		simple("SMPTEOffset", "frames", 24, "1 0 0 25 %s 0"),
		simple("SMPTEOffset", "fractional-frames", 100, "1 0 0 25 0 %s"),
		{kind: "SMPTEOffset", field: "frame-rate", values: []string{"0", "1", "2", "3", "23", "26", "28", "31", "32", "60", "120", "255", "256", "280", "281"},
			text: func(v string, c4 bool) string { return "1 0 0 " + v + " 0 0" }, json: func(o obj, v any) { o["frame-rate"] = v }},
		simple("TimeSignature", "numerator", 255, "%s/4, 24 ticks per click, 8/32 per quarter"),
		simple("TimeSignature", "ticks-per-click", 255, "4/4, %s ticks per click, 8/32 per quarter"),
		simple("TimeSignature", "thirty-seconds-per-quarter", 255, "4/4, 24 ticks per click, %s/32 per quarter"),
		{kind: "TimeSignature", field: "denominator", values: []string{"0", "3", "5", "6", "7", "9", "12", "24", "48", "63", "65", "96", "127", "129", "130", "192", "255", "256", "257", "258", "260", "512", "1024", "65536", "65540", "4294967300"},
			text: func(v string, c4 bool) string { return "4/" + v + ", 24 ticks per click, 8/32 per quarter" }, json: func(o obj, v any) { o["denominator"] = v }},
		{kind: "KeySignature", field: "accidentals", values: []string{"8", "-8", "9", "-9", "15", "100", "127", "-128", "-127", "128", "255", "256", "249"}, json: func(o obj, v any) { o["accidentals"] = v }},
		{kind: "KeySignature", field: "key-type", values: beyond(1, "-1"), json: func(o obj, v any) { o["key-type"] = v }},
		{kind: "KeySignature", field: "key", values: []string{"H major", "G♯ major", "D♯ major", "A♯ major", "E♯ major", "B♯ major", "F♭ major", "D♭ minor", "G♭ minor", "C♭ minor", "F♭ minor", "E♯ minor", "B♯ minor", "major", "C", "C dorian", "X minor"},
			text: func(v string, c4 bool) string { return v }},
		{kind: "Controller", field: "id", values: beyond(127, "-1"), text: func(v string, c4 bool) string { return "channel:1 " + v + "/X, value:1" }, json: func(o obj, v any) { o["controller"] = obj{"id": v} }},
		{kind: "SysExMessage", field: "data", values: []string{"256", "257", "511", "1000", "65536", "65537", "-1", "-128"}, json: func(o obj, v any) { o["data"] = []any{1, v, 2} }},
		{kind: "SequencerSpecificEvent", field: "data", values: []string{"256", "257", "511", "1000", "65536", "65537", "-1", "-128"}, json: func(o obj, v any) { o["data"] = []any{1, v, 2} }},
		{kind: "SysExEscape", field: "data", values: []string{"256", "257", "511", "1000", "65536", "65537", "-1", "-128"}, json: func(o obj, v any) { o["data"] = []any{1, v, 2} }},
		{kind: "SysExContinuation", field: "data", values: []string{"256", "257", "511", "1000", "65536", "65537", "-1", "-128"}, json: func(o obj, v any) { o["data"] = []any{1, v, 2} }},
		{kind: "SysExMessage", field: "manufacturer-id", values: []string{"256", "257", "321", "65536", "-1"}, json: func(o obj, v any) { o["manufacturer"] = obj{"id": []any{v}} }},
		{kind: "SequencerSpecificEvent", field: "manufacturer-id", values: []string{"256", "257", "321", "65536", "-1"}, json: func(o obj, v any) { o["manufacturer"] = obj{"id": []any{0, 0, v}} }},
	}
	for _, kind := range []string{"NoteOn", "NoteOff"} {
		list = append(list, badField{kind: kind, field: "note-value", values: beyond(127, "-1", "-60"), json: func(o obj, v any) { o["note"] = obj{"value": v} }})
		list = append(list, badField{kind: kind, field: "note-name", values: append(append([]string{}, "H4", "4", "C", "X", "C♮4"), badNotes[false]...), text: func(v string, c4 bool) string {
			if c4 {
				v = badNote(v)
			}
			return "channel:1 note:" + v + ", velocity:64"
		}})
	}
	for _, kind := range []string{"SysExMessage", "SequencerSpecificEvent"} {
		list = append(list, badField{kind: kind, field: "hex", values: []string{"0G", "1", "12 3", "XY", "100", "12 34 5", "0x12", "-1"}, text: func(v string, c4 bool) string { return "Yamaha, " + v }})
		list = append(list, badField{kind: kind, field: "manufacturer", values: []string{"Nobody", "", "yamahaha", "Rolan"}, text: func(v string, c4 bool) string { return v + ", 01 02" }})
	}
	for _, kind := range []string{"SysExEscape", "SysExContinuation"} {
		list = append(list, badField{kind: kind, field: "hex", values: []string{"0G", "1", "12 3", "XY", "100", "12 34 5", "0x12"}, text: func(v string, c4 bool) string { return v }})
	}
	for _, kind := range append([]string{"SysExContinuation"}, allKinds...) {
		list = append(list, badField{kind: kind, field: "delta", values: beyond(0x0fffffff, "-1")})
	}
	list = append(list,
		badField{kind: "header", field: "format", values: []string{"3", "4", "9", "10", "12", "20", "255", "256", "257", "65535", "65536", "65537", "-1"}},
		badField{kind: "header", field: "division", values: []string{"32768", "32769", "33000", "50000", "57855", "65535", "65536", "65537", "66016", "4294967296", "-1", "-480"}},
	)
	return list
}()

func (c BadCase) field() (badField, bool) {
	for _, f := range badFields {
		if f.kind == c.Kind && f.field == c.Field {
			return f, true
		}
	}
	return badField{}, false
}

func templateEvent(kind string) Ev {
	e := Ev{Kind: kind, Delta: 1}
	if _, ok := channelStatus[kind]; ok {
		e.Ch = 1
	}
	switch kind {
	case "NoteOn", "NoteOff", "Controller":
		e.V = []int{60, 64}
	case "SMPTEOffset":
		e.V = []int{1, 2, 3, 25, 4, 5}
	case "TimeSignature":
		e.V = []int{4, 4, 24, 8}
	case "KeySignature":
		e.V = []int{0, 0}
	case "SysExMessage":
		e.M, e.D, e.End = []byte{0x43}, []byte{1, 2}, true
	case "SequencerSpecificEvent":
		e.M, e.D = []byte{0x43}, []byte{1, 2}
	case "SysExEscape":
		e.D = []byte{1, 2}
	case "SysExContinuation":
		e.D, e.End = []byte{1, 2}, true
	default:
		if isText(kind) {
			e.D = []byte("abc")
		} else {
			e.V = []int{1}
		}
	}
	return e
}

func checkBad(c BadCase, o *Obs) error {
	o.Nontrivial(true)
	o.Label(true, fmt.Sprintf("%s.%s", c.Kind, c.Field))
	setMiddleC(c.C4)
	defer setMiddleC(false)
	field, ok := c.field()
	if !ok {
		return fmt.Errorf("HARNESS: no such field %s.%s", c.Kind, c.Field)
	}
	spoiled := 0
	assembleIt := func(bad bool) (string, []byte, error) {
		f := File{Format: c.F.Format, Division: c.F.Division, Tracks: append([][]Ev{}, c.F.Tracks...)}
		e := templateEvent(c.Kind)
		if c.Base != nil {
			e = *c.Base
			e.Delta = 1
		}
		if c.Kind != "header" {
			t := f.Tracks[c.Track]
			list := []Ev{e}
			if c.Kind == "SysExContinuation" { // of a message
				list = []Ev{{Kind: "SysExMessage", M: []byte{0x43}, D: []byte{1}}, e}
			}
			f.Tracks[c.Track] = slices.Concat(t[:c.At], list, t[c.At:])
		}
		marker := func(x Ev) bool { return bad && x.Kind == e.Kind && x.Delta == 0xabcdef }
		if bad && c.Kind != "header" {
			at := c.At
			if c.Kind == "SysExContinuation" {
				at++
			}
			f.Tracks[c.Track][at].Delta = 0xabcdef
		}
		if c.JSON {
			h := obj{"tag": "MThd", "format": f.Format, "PPQN": f.Division}
			if bad && c.Kind == "header" {
				h[map[string]string{"format": "format", "division": "PPQN"}[c.Field]] = json.RawMessage(c.Value)
			}
			src := jsonDocument(h, f, false, func(x Ev) any {
				v := jsonEvent(x)
				if marker(x) {
					v["delta"] = 1
					if c.Field == "delta" {
						v["delta"] = json.RawMessage(c.Value)
					} else {
						field.json(v, json.RawMessage(c.Value))
					}
				}
				return v
			})
			b, err := assemble.NewJSONAssembler().Assemble(bytes.NewReader(src))
			return string(src), b, err
		}
		lines := textSource(f, c.L, c.C4)
		for i, l := range lines {
			if bad && c.Kind == "header" && spoiled == 0 && strings.Contains(l, "MThd") && !strings.HasPrefix(l, "%%") {
				spoiled++
				w := &writer{l: c.L, c4: c.C4}
				if c.Field == "format" {
					lines[i] = w.headerLine(f, c.Value, "")
				} else {
					lines[i] = w.headerLine(f, "", "metrical time:"+c.Value+" ppqn")
				}
			}
			if bad && strings.Contains(l, "delta:11259375") {
				if c.Field == "delta" {
					lines[i] = strings.Replace(l, "delta:11259375", "delta:"+c.Value, 1)
				} else if v, ok := spoil(c, l); ok {
					lines[i] = strings.Replace(v, "delta:11259375", "delta:1", 1)
				} else {
					lines[i] = "delta:1 " + c.Kind + " " + field.text(c.Value, c.C4)
				}
				spoiled++
			}
		}
		src := joinLines(lines, c.L)
		b, err := assemble.NewTextAssembler().Assemble(strings.NewReader(src))
		return src, b, err
	}
	if src, _, err := assembleIt(false); err != nil {
		return fmt.Errorf("valid source rejected: %v\n%s", err, clip(src, 3000))
	}
	src, b, err := assembleIt(true)
	if !c.JSON && spoiled != 1 {
		return fmt.Errorf("HARNESS: %d values were spoiled", spoiled)
	}
	if err == nil {
		return fmt.Errorf("%s %s:%s accepted\n%s\n% X", c.Kind, c.Field, c.Value, clip(src, 3000), b)
	} else if len(b) != 0 {
		return fmt.Errorf("%s %s:%s rejected but with output % X", c.Kind, c.Field, c.Value, b)
	}
	return nil
}

// where some values are in the text of an event
var spots = map[string]string{
	"channel": `channel:()[0-9]+`, "velocity": `velocity:()[0-9]+`, "pressure": `pressure:()[0-9]+`, "value": `value:()[0-9]+`, "program": `program:()[0-9]+`,
	"bend": `bend:()[0-9]+`, "tempo": `tempo:()[0-9]+`, "sequence-number": `SequenceNumber\s+()[0-9]+`, "port": `MIDIPort\s+()[0-9]+`,
	"hour": `SMPTEOffset\s+()[0-9]+`, "minute": `SMPTEOffset(?:\s+[0-9]+){1}\s+()[0-9]+`, "second": `SMPTEOffset(?:\s+[0-9]+){2}\s+()[0-9]+`,
	"frame-rate": `SMPTEOffset(?:\s+[0-9]+){3}\s+()[0-9]+`, "frames": `SMPTEOffset(?:\s+[0-9]+){4}\s+()[0-9]+`, "fractional-frames": `SMPTEOffset(?:\s+[0-9]+){5}\s+()[0-9]+`,
	"numerator": `TimeSignature\s+()[0-9]+`, "denominator": `TimeSignature\s+[0-9]+/()[0-9]+`, "ticks-per-click": `,\s+()[0-9]+ ticks`, "thirty-seconds-per-quarter": `()[0-9]+/32 per`,
	"id": `Controller\s+channel:[0-9]+\s+()[0-9]+`, "note-name": `note:()[^,]+`,
}

// spoil puts a bad value into the text of the event that is to have it.
func spoil(c BadCase, line string) (string, bool) {
	re, ok := spots[c.Field]
	if c.Kind == "MIDIChannelPrefix" {
		re = `MIDIChannelPrefix\s+()[0-9]+`
	}
	if !ok || c.Base == nil {
		return "", false
	}
	v := c.Value
	if c.C4 && c.Field == "note-name" {
		v = badNote(v)
	}
	m := regexp.MustCompile(re).FindStringSubmatchIndex(line)
	if m == nil {
		return "", false
	}
	return line[:m[2]] + v + line[m[1]:], true
}

// badNote is the name at the same position of the list of bad notes for the other middle C.
func badNote(v string) string {
	for i, n := range badNotes[false] {
		if n == v && i < len(badNotes[true]) {
			return badNotes[true][i]
		}
	}
	return v
}

// valid is true if the number of frames is in range after all, with the frame rate of the event.
func (c BadCase) valid() bool {
	n, err := strconv.Atoi(c.Value)
	return err == nil && n >= 0 && n < c.Base.V[3]
}

func applicable(f badField, isJSON bool) bool {
	if f.kind == "header" || f.field == "delta" {
		return true
	}
	return isJSON && f.json != nil || !isJSON && f.text != nil
}

func init() {
	property("C06", "generated", 200000, 2000000, func(t *rapid.T) BadCase {
		f := genFile(t, Opts{Text: Plain, Manufacturer: genKnownManufacturer, MinTracks: 1, MaxTracks: 3, MaxEvents: 6, NoSMPTE: true, Delta: func(t *rapid.T) uint32 { return rapid.Uint32Range(0, 2000).Draw(t, "delta") }})
		c := BadCase{F: f, C4: rapid.Bool().Draw(t, "C4"), JSON: rapid.Bool().Draw(t, "json")}
		if !c.JSON {
			c.L = genLayout(t)
		}
		list := []badField{}
		for _, b := range badFields {
			if applicable(b, c.JSON) {
				list = append(list, b)
			}
		}
		b := pick(t, "field", list...)
		c.Kind, c.Field, c.Value = b.kind, b.field, pick(t, "value", b.values...)
		if b.kind != "header" && b.kind != "SysExContinuation" && rapid.Bool().Draw(t, "base") {
			e := genEvent(t, b.kind, Opts{Text: Plain, Manufacturer: genKnownManufacturer})
			c.Base = &e
			if b.kind == "SMPTEOffset" && b.field == "frames" && rapid.Bool().Draw(t, "rate") {
				c.Value = fmt.Sprint(e.V[3] + rapid.IntRange(0, 3).Draw(t, "over"))
			}
			if e.Kind == "SMPTEOffset" && b.field == "frame-rate" || e.Kind == "SysExMessage" && !e.End {
				c.Base = nil
			} else if b.field == "frames" && c.valid() {
				c.Base = nil
			}
		}
		c.Track = rapid.IntRange(0, len(f.Tracks)-1).Draw(t, "track")
		c.At = rapid.IntRange(0, len(f.Tracks[c.Track])-1).Draw(t, "at")
		return c
	}, checkBad)
	enumeration("C06", "sweep", func(tier string, yield func(BadCase)) {
		f := File{Format: 1, Division: 480, Tracks: [][]Ev{{{Kind: "EndOfTrack"}}}}
		for _, rate := range []int{24, 25, 29, 30} { // frames are limited by the frame rate
			for _, n := range []int{rate, rate + 1, rate + 2, 31, 32, 127, 128, 255, 256 + rate - 1} {
				for _, j := range []bool{false, true} {
					e := Ev{Kind: "SMPTEOffset", V: []int{1, 2, 3, rate, 0, 5}}
					yield(BadCase{F: f, JSON: j, Kind: e.Kind, Field: "frames", Value: fmt.Sprint(n), Base: &e})
				}
			}
		}
		for _, b := range badFields {
			for _, v := range b.values {
				for _, j := range []bool{false, true} {
					for _, c4 := range []bool{false, true} {
						if applicable(b, j) {
							yield(BadCase{F: f, C4: c4, JSON: j, Kind: b.kind, Field: b.field, Value: v})
						}
					}
				}
			}
		}
	}, checkBad)
}
