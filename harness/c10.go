package harness

import (
	"fmt"
	"reflect"

	"github.com/transcriptaze/midiasm/ops/transpose"
	"pgregory.net/rapid"
)

// C10: transposing shifts the notes and the keys, and nothing else.

type TransposeCase struct {
	Case
	C4    bool
	Steps int
}

func (c TransposeCase) String() string {
	return fmt.Sprintf("steps:%d C4:%v %v", c.Steps, c.C4, c.Case)
}

func clamp7(v int) int {
	if v < 0 {
		return 0
	}
	if v > 127 {
		return 127
	}
	return v
}

// tonic returns the pitch class of the tonic of a key signature.
func tonic(accidentals, mode int) int {
	return ((7*accidentals+9*mode)%12 + 12) % 12
}

// diffTransposed compares a transposed file with the original.
func diffTransposed(was, got File, steps int) string {
	want := File{Format: was.Format, Division: was.Division}
	for i, t := range was.Tracks {
		list := []Ev{}
		for j, e := range t {
			switch e.Kind {
			case "NoteOn", "NoteOff":
				e.V = []int{clamp7(e.V[0] + steps), e.V[1]}
			case "KeySignature":
				if i < len(got.Tracks) && j < len(got.Tracks[i]) && got.Tracks[i][j].Kind == "KeySignature" {
					v := got.Tracks[i][j].V
					pc := ((tonic(e.V[0], e.V[1])+steps)%12 + 12) % 12
					if v[1] != e.V[1] || tonic(v[0], v[1]) != pc {
						return fmt.Sprintf("track %d, event %d: %s transposed by %d gives %s", i, j, keyName(e.V[0], e.V[1]), steps, keyName(v[0], v[1]))
					}
					e.V = v // the enharmonic spelling is left to the implementation
				}
			}
			list = append(list, e)
		}
		want.Tracks = append(want.Tracks, list)
	}
	return diff(want, got)
}

func checkTranspose(c TransposeCase, o *Obs) error {
	setMiddleC(c.C4)
	defer setMiddleC(false)
	notes, clamped := 0, false
	for _, t := range c.F.Tracks {
		for _, e := range t {
			if e.Kind == "NoteOn" || e.Kind == "NoteOff" {
				notes++
				clamped = clamped || clamp7(e.V[0]+c.Steps) != e.V[0]+c.Steps
			}
		}
	}
	o.Nontrivial(c.Steps != 0 && (notes > 0 || c.F.has("KeySignature")))
	o.Label(clamped, "note out of range")
	o.Label(c.F.has("KeySignature"), "key signature")
	b, _ := c.E.encode(c.F)
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	_, before, err := adapt(smf)
	if err != nil {
		return err
	}
	out, err := (&transpose.Transpose{}).Execute(smf, c.Steps)
	if err != nil {
		return fmt.Errorf("error transposing: %v", err)
	}
	got, err := refParseStrict(out)
	if err != nil {
		return fmt.Errorf("transposed file is not a valid MIDI file: %v", err)
	}
	if d := diffTransposed(c.F, got, c.Steps); d != "" {
		return fmt.Errorf("transposed by %d: %s", c.Steps, d)
	}
	f, after, err := adapt(smf)
	if err != nil || diff(c.F, f) != "" {
		return fmt.Errorf("transposing changed the original: %v %s", err, diff(c.F, f))
	}
	if !reflect.DeepEqual(before, after) {
		return fmt.Errorf("transposing changed the original:\n%+v\n----\n%+v", before, after)
	}
	return nil
}

func genSteps(t *rapid.T) int {
	switch rapid.IntRange(0, 3).Draw(t, "steps-class") {
	case 0, 1:
		return rapid.IntRange(-12, 12).Draw(t, "steps")
	case 2:
		return rapid.IntRange(-140, 140).Draw(t, "steps")
	default:
		return pick(t, "steps", 0, 1, -1, 11, -11, 12, -12, 13, -13, 24, -24, 36, -36, 60, -60, 126, -126, 127, -127, 128, -128, 129, 144, -144, 255, 256, -256, 257, 512, 1000, -1000, 32767, 65536, -65536, 65537, 1000000, -1000000, 1<<31+1, -(1<<31)-1)
	}
}

func init() {
	property("C10", "transpose", 200000, 1000000, func(t *rapid.T) TransposeCase {
		op := binaryOpts()
		op.Long = chance(t, "long", 1, 4)
		if chance(t, "notes-only", 1, 2) {
			op.Only = []string{"NoteOn", "NoteOff", "KeySignature", "Tempo", "Controller", "NoteOn", "ProgramChange"}
		}
		return TransposeCase{Case: genCase(t, op), Steps: genSteps(t), C4: rapid.Bool().Draw(t, "C4")}
	}, checkTranspose)
	enumeration("C10", "sweep", func(tier string, yield func(TransposeCase)) {
		// every note and every key signature by every number of semitones
		for steps := -140; steps <= 140; steps++ {
			for m := 0; m < 2; m++ {
				list := []Ev{}
				for a := -7; a <= 7; a++ {
					list = append(list, Ev{Kind: "KeySignature", V: []int{a, m}})
				}
				for n := 0; n < 128; n++ {
					list = append(list, Ev{Kind: "NoteOn", Ch: n % 16, V: []int{n, 1 + n%127}}, Ev{Kind: "NoteOff", Ch: n % 16, Delta: 1, V: []int{n, n}})
				}
				list = append(list, Ev{Kind: "EndOfTrack"})
				yield(TransposeCase{Case: Case{F: File{Format: 1, Division: 480, Tracks: [][]Ev{{{Kind: "Tempo", V: []int{500000}}, {Kind: "EndOfTrack"}}, list}}}, Steps: steps, C4: m == 1})
			}
		}
	}, checkTranspose)
}
