package harness

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/transcriptaze/midiasm/midi/events"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
	"github.com/transcriptaze/midiasm/midi/lib"
	"pgregory.net/rapid"
)

// C25: a single event is accepted if it is well formed, and rejected otherwise, in each of its forms.

// refEvent is the reference parser for an event on its own; it also returns the number of bytes of the event.
func refEvent(b []byte) (Ev, int, error) {
	c := &cursor{b: b}
	if _, err := c.vlq(); err != nil {
		return Ev{}, 0, err
	}
	if s, err := c.byte(); err != nil {
		return Ev{}, 0, err
	} else if s < 0x80 {
		return Ev{}, 0, fmt.Errorf("no status byte")
	}
	var last error
	for n := c.i; n <= len(b); n++ { // the shortest prefix that is an event
		list, err := refParseTrack(b[:n], false)
		if err == nil && len(list) == 1 {
			return list[0], n, nil
		}
		last = err
	}
	return Ev{}, 0, last
}

// continuation is an F7 event taken as the continuation of a SysEx message.
func continuation(e Ev) Ev {
	e.Kind = "SysExContinuation"
	if n := len(e.D); n > 0 && e.D[n-1] == 0xf7 {
		e.D, e.End = e.D[:n-1], true
	}
	return e
}

func typed[E events.TEvent, P interface {
	*E
	encoding.BinaryUnmarshaler
	encoding.TextUnmarshaler
	json.Unmarshaler
}](form string, b []byte) (events.IEvent, error) {
	p := P(new(E))
	var err error
	switch form {
	case "binary":
		err = p.UnmarshalBinary(b)
	case "text":
		err = p.UnmarshalText(b)
	default:
		err = p.UnmarshalJSON(b)
	}
	if err != nil {
		return nil, err
	}
	return any(*p).(events.IEvent), nil
}

var unmarshallers = map[string]func(form string, b []byte) (events.IEvent, error){
	"SequenceNumber":         typed[metaevent.SequenceNumber],
	"Text":                   typed[metaevent.Text],
	"Copyright":              typed[metaevent.Copyright],
	"TrackName":              typed[metaevent.TrackName],
	"InstrumentName":         typed[metaevent.InstrumentName],
	"Lyric":                  typed[metaevent.Lyric],
	"Marker":                 typed[metaevent.Marker],
	"CuePoint":               typed[metaevent.CuePoint],
	"ProgramName":            typed[metaevent.ProgramName],
	"DeviceName":             typed[metaevent.DeviceName],
	"MIDIChannelPrefix":      typed[metaevent.MIDIChannelPrefix],
	"MIDIPort":               typed[metaevent.MIDIPort],
	"EndOfTrack":             typed[metaevent.EndOfTrack],
	"Tempo":                  typed[metaevent.Tempo],
	"SMPTEOffset":            typed[metaevent.SMPTEOffset],
	"TimeSignature":          typed[metaevent.TimeSignature],
	"KeySignature":           typed[metaevent.KeySignature],
	"SequencerSpecificEvent": typed[metaevent.SequencerSpecificEvent],
	"NoteOn":                 typed[midievent.NoteOn],
	"NoteOff":                typed[midievent.NoteOff],
	"PolyphonicPressure":     typed[midievent.PolyphonicPressure],
	"Controller":             typed[midievent.Controller],
	"ProgramChange":          typed[midievent.ProgramChange],
	"ChannelPressure":        typed[midievent.ChannelPressure],
	"PitchBend":              typed[midievent.PitchBend],
	"SysExMessage":           typed[sysex.SysExMessage],
	"SysExContinuation":      typed[sysex.SysExContinuationMessage],
	"SysExEscape":            typed[sysex.SysExEscapeMessage],
}

type SingleCase struct {
	Form string // "binary", "text" or "json"
	B    []byte
	As   string // the kind of event to unmarshal to, or "" for whatever it is
	C4   bool
	Note string
	Want *Ev // the event that a valid text or JSON event describes
}

func (c SingleCase) String() string {
	s := fmt.Sprintf("% X", c.B)
	if c.Form != "binary" {
		s = fmt.Sprintf("%q", c.B)
	}
	return fmt.Sprintf("%s event as %q (C4:%v, %s): %s", c.Form, c.As, c.C4, c.Note, s)
}

func (c SingleCase) unmarshal() (events.IEvent, error) {
	b := bytes.Clone(c.B)
	if c.As != "" {
		return unmarshallers[c.As](c.Form, b)
	}
	x := events.Event{}
	var err error
	switch c.Form {
	case "binary":
		err = x.UnmarshalBinary(b)
	case "text":
		err = x.UnmarshalText(b)
	default:
		err = x.UnmarshalJSON(b)
	}
	if err == nil && x.Event == nil {
		return nil, fmt.Errorf("no event")
	}
	return x.Event, err
}

func checkSingle(c SingleCase, o *Obs) error {
	setMiddleC(c.C4)
	defer setMiddleC(false)
	o.Nontrivial(len(c.B) > 2)
	x, err := c.unmarshal()
	if c.Form != "binary" {
		return checkSource1(c, o, x, err)
	}
	want, n, refErr := refEvent(c.B)
	if want.Kind == "SysExEscape" && c.As != "SysExEscape" { // on its own, an F7 event is a continuation
		want = continuation(want)
	}
	if refErr == nil && c.As != "" && c.As != want.Kind {
		refErr = fmt.Errorf("a %s event", want.Kind)
	}
	o.Label(refErr == nil, "binary: well formed")
	o.Label(refErr != nil, "binary: malformed")
	switch {
	case refErr == nil && err != nil:
		if n < len(c.B) { // followed by something else: up to the tree
			return nil
		}
		return fmt.Errorf("well formed event (%v) rejected: %v", want, err)
	case refErr != nil && err == nil:
		return fmt.Errorf("malformed event (%v) accepted as %+v", refErr, x)
	case err == nil:
		got, _, err := adaptEvent(x)
		if err != nil {
			return err
		}
		if !eqEv(want, got) {
			return fmt.Errorf("expected %v, got %v", want, got)
		}
	}
	return nil
}

// checkSource1 checks a text or JSON event: if it was accepted, what came of it can be encoded, and is a well formed event.
func checkSource1(c SingleCase, o *Obs, x events.IEvent, err error) error {
	o.Label(err == nil, c.Form+": accepted")
	o.Label(err != nil, c.Form+": rejected")
	if err != nil {
		if c.Want != nil {
			return fmt.Errorf("valid event rejected: %v", err)
		}
		return nil
	}
	m, ok := x.(encoding.BinaryMarshaler)
	if !ok {
		return fmt.Errorf("%T has no binary form", x)
	}
	e, _, err := adaptEvent(x)
	if err != nil {
		return err
	}
	if c.As != "" && e.Kind != c.As {
		return fmt.Errorf("accepted as a %s", e.Kind)
	}
	if c.Want != nil && !eqEv(single(*c.Want), single(e)) {
		return fmt.Errorf("expected %v, got %v", *c.Want, e)
	}
	b, err := m.MarshalBinary()
	if err != nil && c.Want != nil {
		return fmt.Errorf("valid event cannot be encoded: %v", err)
	} else if err != nil {
		return nil // rejected when it is encoded
	}
	delta, err := lib.Delta(e.Delta).MarshalBinary()
	if err != nil {
		return nil // likewise
	}
	if !bytes.Equal(delta, vlqBytes(e.Delta, 0)) {
		return fmt.Errorf("accepted with a delta of %d, encoded as % X", e.Delta, delta)
	}
	b = append(delta, b...)
	got, n, err := refEvent(b)
	if err != nil || n != len(b) {
		return fmt.Errorf("accepted as %v, but that is encoded as a malformed event (%v): % X", e, err, b)
	}
	if e.Kind == "SysExContinuation" {
		got = continuation(got)
	}
	if e.Kind == "SysExMessage" || e.Kind == "SysExContinuation" {
		// a data byte of F7 at the end and the terminator are the same thing
		got, e = terminator(got), terminator(e)
	}
	if c.Note == "out of range" {
		return fmt.Errorf("a value that is out of range was accepted as %v, encoded as % X", e, b)
	}
	if !eqEv(got, e) {
		return fmt.Errorf("accepted as %v, but that is encoded as %v: % X", e, got, b)
	}
	return nil
}

// single is an event without what a single text or JSON event does not have: whether it is the last of a SysEx message.
func single(e Ev) Ev {
	e.End = false
	return e
}

func terminator(e Ev) Ev {
	if e.End {
		e.D, e.End = append(append([]byte{}, e.D...), 0xf7), false
	}
	return e
}

func genSingleEvent(t *rapid.T) Ev {
	o := Opts{Text: Plain, Manufacturer: genKnownManufacturer}
	switch kind := pick(t, "kind", append([]string{"EndOfTrack", "SysExContinuation"}, allKinds...)...); kind {
	case "EndOfTrack":
		return Ev{Kind: kind, Delta: genDelta(t)}
	case "SysExContinuation":
		return Ev{Kind: kind, Delta: genDelta(t), D: gen7bits(t, "data", false), End: rapid.Bool().Draw(t, "end")}
	default:
		return genEvent(t, kind, o)
	}
}

func genAs(t *rapid.T, kind string) string {
	switch rapid.IntRange(0, 3).Draw(t, "as") {
	case 0:
		return pick(t, "as-kind", append([]string{"EndOfTrack", "SysExContinuation"}, allKinds...)...)
	case 1:
		return kind
	default:
		return ""
	}
}

func genBinaryEvent(t *rapid.T) SingleCase {
	c := SingleCase{Form: "binary", Note: "valid"}
	if chance(t, "raw", 1, 2) {
		c.B, c.Note = genRawEvent(t), "raw"
		kind := ""
		if e, _, err := refEvent(c.B); err == nil {
			kind = e.Kind
		}
		c.As = genAs(t, kind)
	} else {
		e := genSingleEvent(t)
		_, raw := encodeTrack([]Ev{e}, plain())
		c.B, c.As = raw[0], genAs(t, e.Kind)
	}
	if chance(t, "mutate", 1, 2) {
		c.B, c.Note = mutate(t, c.B), "mutated"
	}
	return c
}

func genTextEvent(t *rapid.T) SingleCase {
	c := SingleCase{Form: "text", C4: chance(t, "C4", 1, 3), Note: "valid"}
	e := genSingleEvent(t)
	w := &writer{c4: c.C4}
	s := w.event(e, 0)
	if chance(t, "mutate", 2, 3) {
		s, c.Note = mutateText(t, s, textTokens), "mutated"
	}
	c.B, c.As = []byte(s), genAs(t, e.Kind)
	if c.Note == "valid" && (c.As == "" || c.As == e.Kind) {
		c.Want = &e
	}
	return c
}

func genJSONEvent(t *rapid.T) SingleCase {
	c := SingleCase{Form: "json", C4: chance(t, "C4", 1, 3), Note: "valid"}
	e := genSingleEvent(t)
	c.As = genAs(t, e.Kind)
	var doc any = jsonEvent(e)
	if c.As == "" {
		doc = obj{"event": doc}
	}
	b, err := json.Marshal(doc)
	if err != nil {
		panic(err)
	}
	if chance(t, "mutate", 2, 3) {
		c.Note = "mutated"
		if chance(t, "as-text", 1, 3) {
			b = []byte(mutateText(t, string(b), jsonTokens))
		} else {
			b = mutateJSON(t, b)
		}
	} else if c.As == "" || c.As == e.Kind {
		c.Want = &e
	}
	c.B = b
	return c
}

func init() {
	property("C25", "binary", 2000000, 40000000, genBinaryEvent, checkSingle)
	property("C25", "text", 600000, 12000000, genTextEvent, checkSingle)
	property("C25", "json", 600000, 12000000, genJSONEvent, checkSingle)
	enumeration("C25", "bytes", func(tier string, yield func(SingleCase)) {
		for status := 0x80; status < 0x100; status++ { // every status with every pair of edge bytes
			for _, a := range edgeBytes {
				yield(SingleCase{Form: "binary", B: []byte{0, byte(status), a}, Note: "enumerated"})
				for _, b := range edgeBytes {
					yield(SingleCase{Form: "binary", B: []byte{0, byte(status), a, b}, Note: "enumerated"})
					if status >= 0xf0 {
						for _, c := range edgeBytes {
							yield(SingleCase{Form: "binary", B: []byte{0, byte(status), a, b, c}, Note: "enumerated"})
						}
					}
				}
			}
		}
		for kind := 0; kind < 0x100; kind++ { // every META event with every length
			for n := 0; n < 9; n++ {
				for _, v := range []byte{0, 1, 2, 0x7f, 0x80, 0xff} {
					yield(SingleCase{Form: "binary", B: append([]byte{0, 0xff, byte(kind), byte(n)}, bytes.Repeat([]byte{v}, n)...), Note: "enumerated"})
				}
			}
		}
	}, checkSingle)
}

func init() {
	enumeration("C25", "sweep", func(tier string, yield func(SingleCase)) { // every value that is out of range
		for _, rate := range []int{24, 25, 29, 30} { // every number of frames, in and out of range
			for n := 0; n < 260; n++ {
				e := Ev{Kind: "SMPTEOffset", Delta: 1, V: []int{1, 2, 3, rate, n, 5}}
				for _, as := range []string{"", e.Kind} {
					c := SingleCase{As: as, Note: "frames"}
					if n < rate {
						c.Want = &e
					} else {
						c.Note = "out of range"
					}
					c.Form, c.B = "text", []byte((&writer{}).event(e, 0))
					yield(c)
					var doc any = jsonEvent(e)
					if as == "" {
						doc = obj{"event": doc}
					}
					b, err := json.Marshal(doc)
					if err != nil {
						panic(err)
					}
					c.Form, c.B = "json", b
					yield(c)
				}
			}
		}
		for _, f := range badFields {
			if f.kind == "header" {
				continue
			}
			for _, v := range f.values {
				for _, c4 := range []bool{false, true} {
					for _, as := range []string{"", f.kind} {
						c := SingleCase{C4: c4, As: as, Note: "out of range"}
						if applicable(f, false) {
							c.Form, c.B = "text", []byte(f.line(v, c4))
							yield(c)
						}
						if applicable(f, true) {
							var doc any = f.object(v)
							if as == "" {
								doc = obj{"event": doc}
							}
							b, err := json.Marshal(doc)
							if err != nil {
								panic(err)
							}
							c.Form, c.B = "json", b
							yield(c)
						}
					}
				}
			}
		}
	}, checkSingle)
}

// line is an event with an out of range value, as text.
func (f badField) line(v string, c4 bool) string {
	if f.field == "delta" {
		return strings.Replace((&writer{c4: c4}).event(templateEvent(f.kind), 0), "delta:1", "delta:"+v, 1)
	}
	return "delta:1 " + f.kind + " " + f.text(v, c4)
}

// object is an event with an out of range value, as JSON.
func (f badField) object(v string) obj {
	o := jsonEvent(templateEvent(f.kind))
	if f.field == "delta" {
		o["delta"] = json.RawMessage(v)
	} else {
		f.json(o, json.RawMessage(v))
	}
	return o
}

var edgeBytes = []byte{0, 1, 2, 3, 0x0f, 0x10, 0x3c, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0xf0, 0xf7, 0xff}
