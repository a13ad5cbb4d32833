package harness

import (
	"bytes"
	"encoding/json"
	"os"
	"path/filepath"
	"strings"

	"github.com/transcriptaze/midiasm/midi/events/sysex"
)

// The known findings: each probe runs the input that fails, and is true if it still does.

type finding struct {
	property, id string
	probe        func() bool
}

// oneTrack is a MIDI file with a single track.
func oneTrack(data ...byte) []byte {
	data = append(data, 0x00, 0xff, 0x2f, 0x00)
	return append(header(File{Format: 1, Division: 480}, 1), chunk("MTrk", data)...)
}

// roundTrip is false if a file does not survive the trip through text or JSON.
func roundTrip(b []byte, isJSON bool) bool {
	smf, err := decode(b)
	if err != nil {
		return false
	}
	var src []byte
	if isJSON {
		src, err = exportJSON(smf)
	} else {
		s, e := disassembleText(smf)
		src, err = []byte(s), e
	}
	if err != nil {
		return false
	}
	got, err := assembler(isJSON).Assemble(bytes.NewReader(src))
	return err == nil && bytes.Equal(got, b)
}

var findings = []finding{
	{"C01", "polyphonic-pressure", func() bool {
		// 00 A0 3C 40: note 60, pressure 64
		smf, err := decode(oneTrack(0x00, 0xa0, 0x3c, 0x40))
		if err != nil {
			return true
		}
		f, _, err := adapt(smf)
		return err != nil || f.Tracks[0][0].V[0] != 64
	}},
	{"C01", "pitch-bend-order", func() bool {
		// 00 E0 00 40: the centre, 8192
		smf, err := decode(oneTrack(0x00, 0xe0, 0x00, 0x40))
		if err != nil {
			return true
		}
		f, _, err := adapt(smf)
		return err != nil || f.Tracks[0][0].V[0] != 8192
	}},
	{"C03", "unknown-manufacturer", func() bool {
		return !roundTrip(oneTrack(0x00, 0xf0, 0x03, 0x02, 0x01, 0xf7), false)
	}},
	{"C03", "text-newline", func() bool {
		return !roundTrip(oneTrack(0x00, 0xff, 0x01, 0x03, 'a', '\n', 'b'), false)
	}},
	{"C03", "text-leading-space", func() bool {
		return !roundTrip(oneTrack(0x00, 0xff, 0x01, 0x02, ' ', 'a'), false)
	}},
	{"C03", "unterminated-sysex", func() bool {
		return !roundTrip(oneTrack(0x00, 0xf0, 0x03, 0x43, 0x12, 0x00), false)
	}},
	{"C04", "non-utf8-text", func() bool {
		return !roundTrip(oneTrack(0x00, 0xff, 0x01, 0x01, 0xe9), true)
	}},
	{"C04", "unterminated-sysex", func() bool {
		return !roundTrip(oneTrack(0x00, 0xf0, 0x03, 0x43, 0x12, 0x00), true)
	}},
	{"C09", "long-header", func() bool {
		b := append([]byte("MThd\x00\x00\x00\x08\x00\x01\x00\x01\x01\xe0\x00\x00"), chunk("MTrk", []byte{0x00, 0xff, 0x2f, 0x00})...)
		_, err := decode(b)
		return err != nil
	}},
	{"C15", "tabular-newline", func() bool {
		dir := scratchDir()
		defer os.RemoveAll(dir)
		in := filepath.Join(dir, "in.mid")
		if err := os.WriteFile(in, oneTrack(0x00, 0xff, 0x05, 0x03, 'a', '\n', 'b'), 0600); err != nil {
			return false
		}
		r := runCommand("tsv", in)
		return r.Error == nil && strings.Count(r.Out, "\n") != 3
	}},
	{"C16", "middle-c", func() bool {
		// documented: C3 is middle C (note 60) by default, C4 with --C4
		setMiddleC(false)
		smf, err := decode(oneTrack(0x00, 0x90, 0x3c, 0x40))
		if err != nil {
			return false
		}
		_, n, err := adapt(smf)
		return err == nil && n[0][0].Note == "C4"
	}},
	{"C24", "continuation-json-end", func() bool {
		b, err := json.Marshal(sysex.MakeSysExContinuationEndMessage(0, 0, []byte{0x43, 0x12}))
		if err != nil {
			return false
		}
		m := sysex.SysExContinuationMessage{}
		if err := json.Unmarshal(b, &m); err != nil {
			return false
		}
		return strings.Contains(string(b), `"end":true`) && !m.End
	}},
}

// probeFindings writes down which of the known findings of a property are there.
func probeFindings(e *Env) {
	list := []string{}
	for _, f := range findings {
		if f.property == e.property {
			func() {
				defer func() {
					if recover() != nil {
						list = append(list, f.id)
					}
				}()
				if f.probe() {
					list = append(list, f.id)
				}
			}()
		}
	}
	b, _ := json.Marshal(list)
	os.WriteFile(filepath.Join(e.out, "findings.json"), b, 0644)
}
