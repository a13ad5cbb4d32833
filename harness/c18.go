package harness

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C18: validation reports what is wrong with the structure of a file, and nothing else.

var validations = []struct {
	re   *regexp.Regexp
	name string
}{
	{regexp.MustCompile(`^File contains (\d+) tracks \(expected 1 track`), "tracks"},
	{regexp.MustCompile(`^Track (\d+): unexpected event \((\w+)\)`), "unexpected"},
	{regexp.MustCompile(`^Track (\d+): EndOfTrack @(\d+) .*not last event`), "EndOfTrack not last"},
	{regexp.MustCompile(`^Track (\d+): missing EndOfTrack`), "missing EndOfTrack"},
	{regexp.MustCompile(`^Track (\d+): 'Bank Select MSB' event @(\d+) missing LSB`), "MSB without LSB"},
	{regexp.MustCompile(`^Track (\d+): 'Bank Select LSB' event @(\d+) missing MSB`), "LSB without MSB"},
	{regexp.MustCompile(`^Track (\d+): 'Bank Select MSB' event @(\d+) LSB on another channel`), "MSB on another channel"},
	{regexp.MustCompile(`^Track (\d+): 'Bank Select LSB' event @(\d+) MSB on another channel`), "LSB on another channel"},
}

// parseValidation reduces a message to what it says.
func parseValidation(s string) string {
	for _, v := range validations {
		if m := v.re.FindStringSubmatch(s); m != nil {
			for i := range m {
				m[i] = strings.TrimSuffix(m[i], "Message")
				if m[i] == "SysEx" {
					m[i] = "SysExMessage"
				}
			}
			return v.name + " " + strings.Join(m[1:], " ")
		}
	}
	return "?" + s
}

func refValidate(f File) []string {
	list := []string{}
	add := func(format string, args ...any) { list = append(list, fmt.Sprintf(format, args...)) }
	if f.Format == 0 && len(f.Tracks) != 1 {
		add("tracks %d", len(f.Tracks))
	}
	for i, t := range f.Tracks {
		eot := false
		for j, e := range t {
			if f.Format == 1 {
				conductor := e.Kind == "Tempo" || e.Kind == "SMPTEOffset"
				ok := !conductor
				if i == 0 {
					ok = conductor || e.Kind == "TimeSignature" || e.Kind == "TrackName" || e.Kind == "Copyright" || e.Kind == "EndOfTrack"
				}
				if !ok {
					add("unexpected %d %s", i, e.Kind)
				}
			}
			if e.Kind == "EndOfTrack" {
				eot = true
				if j != len(t)-1 {
					add("EndOfTrack not last %d %d", i, j+1)
				}
			}
			msb := func(e Ev) bool { return e.Kind == "Controller" && e.V[0] == 0 }
			lsb := func(e Ev) bool { return e.Kind == "Controller" && e.V[0] == 32 }
			if msb(e) {
				if j+1 == len(t) || !lsb(t[j+1]) {
					add("MSB without LSB %d %d", i, j+1)
				} else if t[j+1].Ch != e.Ch {
					add("MSB on another channel %d %d", i, j+1)
				}
			}
			if lsb(e) {
				if j == 0 || !msb(t[j-1]) {
					add("LSB without MSB %d %d", i, j+1)
				} else if t[j-1].Ch != e.Ch {
					add("LSB on another channel %d %d", i, j+1)
				}
			}
		}
		if !eot {
			add("missing EndOfTrack %d", i)
		}
	}
	sort.Strings(list)
	return list
}

func checkValidate(c Case, o *Obs) error {
	b, _ := c.E.encode(c.F)
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	got := []string{}
	for _, e := range smf.Validate() {
		got = append(got, parseValidation(fmt.Sprintf("%v", e)))
	}
	sort.Strings(got)
	want := refValidate(c.F)
	for _, s := range want {
		for _, v := range validations {
			o.Label(strings.HasPrefix(s, v.name+" "), "reports "+v.name)
		}
	}
	o.Nontrivial(len(want) > 0)
	o.Label(len(want) == 0, "nothing to report")
	for k := 0; k < len(want) || k < len(got); k++ {
		if k >= len(got) || k < len(want) && want[k] < got[k] {
			return fmt.Errorf("not reported: %s\nexpected %q\ngot      %q", want[k], want, got)
		}
		if k >= len(want) || want[k] > got[k] {
			return fmt.Errorf("reported without cause: %s\nexpected %q\ngot      %q", got[k], want, got)
		}
	}
	return nil
}

// genStructure draws files with the faults that validation is there to find, and files without any.
func genStructure(t *rapid.T) Case {
	o := Opts{Text: AnyBytes, Packets: true, MaxEvents: 12, MaxTracks: 4, NoEOT: true, ManyTracks: true}
	if rapid.Bool().Draw(t, "banks") {
		o.Only = []string{"Controller", "Controller", "Controller", "ProgramChange", "NoteOn"}
	}
	f := genFile(t, o)
	if chance(t, "tracks", 1, 6) {
		f.Format = 0
	}
	if f.Format == 1 && len(f.Tracks) > 0 && rapid.Bool().Draw(t, "conductor") {
		x := o
		x.Only = []string{"Tempo", "TimeSignature", "TrackName", "SMPTEOffset", "Copyright"}
		f.Tracks[0] = genTrack(t, x)
	}
	for i := range f.Tracks {
		for j := range f.Tracks[i] {
			e := &f.Tracks[i][j]
			if e.Kind == "Controller" {
				if chance(t, "bank", 3, 4) {
					e.V[0] = pick(t, "id", 0, 32, 0, 32, 33, 1)
				}
				e.Ch &= 1
			}
		}
		if chance(t, "early-eot", 1, 8) {
			k := rapid.IntRange(0, len(f.Tracks[i])).Draw(t, "at")
			list := append([]Ev{}, f.Tracks[i][:k]...)
			list = append(list, Ev{Kind: "EndOfTrack", Delta: 1})
			f.Tracks[i] = append(list, f.Tracks[i][k:]...)
		}
		if chance(t, "well-formed-banks", 1, 2) { // each select complete
			list := []Ev{}
			for _, e := range f.Tracks[i] {
				if e.Kind == "Controller" && (e.V[0] == 0 || e.V[0] == 32) {
					list = append(list, Ev{Kind: "Controller", Ch: e.Ch, Delta: e.Delta, V: []int{0, e.V[1]}}, Ev{Kind: "Controller", Ch: e.Ch, V: []int{32, e.V[1]}})
				} else {
					list = append(list, e)
				}
			}
			f.Tracks[i] = list
		}
	}
	return Case{F: f, E: genEnc(t, f)}
}

func init() {
	property("C18", "validate", 250000, 2000000, genStructure, checkValidate)
	enumeration("C18", "sweep", sweepCases, checkValidate)
	enumeration("C18", "pairs", func(tier string, yield func(Case)) {
		// every controller next to every other, on one channel and on two, and at either end of a track
		for a := 0; a < 128; a++ {
			for b := 0; b < 128; b++ {
				if a != 0 && a != 32 && b != 0 && b != 32 && tier == "quick" {
					continue
				}
				for ch := 0; ch < 2; ch++ {
					list := []Ev{{Kind: "Controller", V: []int{a, 1}}, {Kind: "Controller", Ch: ch * 15, V: []int{b, 2}}}
					f := File{Format: 2, Division: 96, Tracks: [][]Ev{list, append(append([]Ev{}, list...), Ev{Kind: "EndOfTrack"}), {list[0], {Kind: "NoteOn", V: []int{1, 2}}, list[1], {Kind: "EndOfTrack"}}}}
					yield(Case{F: f})
				}
			}
		}
	}, checkValidate)
	enumeration("C18", "kinds", func(tier string, yield func(Case)) {
		// every kind of event in every track of every format
		sweepFiles(func(f File) {
			for _, t := range f.Tracks {
				for _, e := range t {
					if e.Kind == "SysExContinuation" || e.Kind == "SysExMessage" && !e.End {
						continue
					}
					for format := 0; format < 3; format++ {
						one := []Ev{e, {Kind: "EndOfTrack"}}
						yield(Case{F: File{Format: format, Division: 96, Tracks: [][]Ev{one, one, one}}})
						yield(Case{F: File{Format: format, Division: 96, Tracks: [][]Ev{one}}})
					}
				}
			}
		})
	}, checkValidate)
}
