package harness

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"

	"github.com/transcriptaze/midiasm/midi/events"
	"pgregory.net/rapid"
)

// C24: the binary, text and JSON forms of a single event agree.

type EventCase struct {
	E  Ev
	C4 bool
}

func (c EventCase) String() string { return fmt.Sprintf("C4:%v %v", c.C4, c.E) }

func checkEvent(c EventCase, o *Obs) error {
	setMiddleC(c.C4)
	defer setMiddleC(false)
	o.Nontrivial(c.E.Kind != "EndOfTrack")
	o.Label(true, c.E.Kind)
	if c.E.Kind == "SysExContinuation" {
		c.E.End = false // left to the assembler, which knows whether another packet follows
	}
	want := c.E
	_, raw := encodeTrack([]Ev{c.E}, plain())
	payload := raw[0][len(vlqBytes(c.E.Delta, 0)):]

	parse := func(form string, e *events.Event, err error) error {
		if err != nil {
			return fmt.Errorf("%s form of %v rejected: %v", form, c.E, err)
		}
		got, _, err := adaptEvent(e.Event)
		if err != nil {
			return fmt.Errorf("%s form: %v", form, err)
		}
		if !eqEv(want, got) {
			return fmt.Errorf("%s form: expected %v, got %v", form, want, got)
		}
		m, ok := e.Event.(encoding.BinaryMarshaler)
		if !ok {
			return fmt.Errorf("%s form: %T has no binary form", form, e.Event)
		}
		b, err := m.MarshalBinary()
		if err != nil {
			return fmt.Errorf("%s form: %v cannot be encoded: %v", form, c.E, err)
		}
		if !bytes.Equal(b, payload) {
			return fmt.Errorf("%s form of %v: encoded as % X, expected % X", form, c.E, b, payload)
		}
		j, err := json.Marshal(e.Event)
		if err != nil {
			return fmt.Errorf("%s form: %v cannot be written as JSON: %v", form, c.E, err)
		}
		again := events.Event{}
		if err := again.UnmarshalJSON(append(append([]byte(`{"event":`), j...), '}')); err != nil {
			return fmt.Errorf("%s form: JSON of %v rejected: %v\n%s", form, c.E, err, j)
		}
		if got, _, err := adaptEvent(again.Event); err != nil || !eqEv(want, got) {
			return fmt.Errorf("%s form: JSON of %v read back as %v (%v)\n%s", form, c.E, got, err, j)
		}
		return nil
	}
	if c.E.Kind != "SysExEscape" { // the binary form of an F7 event on its own is a continuation
		e := events.Event{}
		err := e.UnmarshalBinary(raw[0])
		if err := parse("binary", &e, err); err != nil {
			return err
		}
	}
	if c.E.Kind != "SysExContinuation" && c.E.Kind != "SysExMessage" { // the text form has no terminators
		e := events.Event{}
		w := &writer{c4: c.C4}
		err := e.UnmarshalText([]byte(w.event(c.E, 0)))
		if err := parse("text", &e, err); err != nil {
			return err
		}
	}
	e := events.Event{}
	j, err := json.Marshal(obj{"event": jsonEvent(c.E)})
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	err = e.UnmarshalJSON(j)
	return parse("JSON", &e, err)
}

func init() {
	kinds := append([]string{"EndOfTrack", "SysExContinuation"}, allKinds...)
	property("C24", "event", 400000, 6000000, func(t *rapid.T) EventCase {
		c := EventCase{C4: chance(t, "C4", 1, 3)}
		kind := pick(t, "kind", kinds...)
		o := Opts{Text: Plain, Manufacturer: genKnownManufacturer, Long: true}
		switch kind {
		case "EndOfTrack":
			c.E = Ev{Kind: kind, Delta: genDelta(t)}
		case "SysExContinuation":
			c.E = Ev{Kind: kind, Delta: genDelta(t), D: gen7bits(t, "data", true), End: rapid.Bool().Draw(t, "end")}
		default:
			c.E = genEvent(t, kind, o)
			if kind == "SysExMessage" {
				c.E.End = rapid.Bool().Draw(t, "end")
			}
		}
		return c
	}, checkEvent)
	enumeration("C24", "sweep", func(tier string, yield func(EventCase)) {
		sweepFiles(func(f File) {
			for _, t := range f.Tracks {
				for _, e := range t {
					yield(EventCase{E: e})
				}
			}
		})
	}, checkEvent)
}
