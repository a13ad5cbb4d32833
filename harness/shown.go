package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/transcriptaze/midiasm/midi/events"
	"pgregory.net/rapid"
)

// What is shown of the context of an event (its note name, bank, controller or manufacturer), wherever it is shown: in the
// listing, in the export and in the table. Used by C16, C17 and C26 for the events that they are about.

type Shown struct {
	Note   string // NoteOn and NoteOff
	Bank   int    // ProgramChange, -1 if there is none
	ID     []int  // controller or manufacturer, nil if it is not shown
	Name   string // of the controller or manufacturer
	Region string // of the manufacturer, "" if it is not shown
}

var (
	listedNote       = regexp.MustCompile(`note:(\S+),`)
	listedBank       = regexp.MustCompile(`bank:(\d+),`)
	listedController = regexp.MustCompile(`^channel:\d+\s+(\d+)/(.*), value:\d+\s*$`)
	tableController  = regexp.MustCompile(`^(\d+):(.*), \d+\s*$`)
	tableBank        = regexp.MustCompile(`^(\d+), \d+\s*$`)
	tableSysEx       = regexp.MustCompile(`^(.*?):(.*?):(.*)$`)
)

// shownInListing reads what is shown of each event from a listing (of a file without line breaks in its texts).
func shownInListing(text string) ([][]Shown, error) {
	list := [][]Shown{}
	for _, l := range strings.Split(text, "\n") {
		m := eventLine.FindStringSubmatch(l)
		if m == nil {
			if strings.Contains(l, "MTrk") {
				list = append(list, []Shown{})
			}
			continue
		}
		if len(list) == 0 {
			return nil, fmt.Errorf("listing: event line before the first track: %q", l)
		}
		s := Shown{Bank: -1}
		switch m[5] {
		case "NoteOn", "NoteOff":
			if v := listedNote.FindStringSubmatch(m[6]); v != nil {
				s.Note = v[1]
			}
		case "ProgramChange":
			if v := listedBank.FindStringSubmatch(m[6]); v != nil {
				s.Bank, _ = strconv.Atoi(v[1])
			}
		case "Controller":
			if v := listedController.FindStringSubmatch(m[6]); v != nil {
				id, _ := strconv.Atoi(v[1])
				s.ID, s.Name = []int{id}, strings.TrimSpace(v[2])
			}
		case "SysExMessage", "SequencerSpecificEvent": // a name may contain a comma, the data does not
			if i := strings.LastIndex(m[6], ","); i >= 0 {
				s.Name = strings.TrimSpace(m[6][:i])
			}
		}
		i := len(list) - 1
		list[i] = append(list[i], s)
	}
	return list, nil
}

func shownInExport(b []byte) ([][]Shown, error) {
	type named struct {
		ID     json.RawMessage `json:"id"`
		Name   string          `json:"name"`
		Region string          `json:"region"`
	}
	doc := struct {
		Tracks []struct {
			Events []struct {
				Event struct {
					Bank         *int                  `json:"bank"`
					Note         struct{ Name string } `json:"note"`
					Controller   *named                `json:"controller"`
					Manufacturer *named                `json:"manufacturer"`
				} `json:"event"`
			} `json:"events"`
		} `json:"tracks"`
	}{}
	if err := json.Unmarshal(b, &doc); err != nil {
		return nil, fmt.Errorf("export: %v", err)
	}
	list := [][]Shown{}
	for _, t := range doc.Tracks {
		track := []Shown{}
		for _, e := range t.Events {
			s := Shown{Bank: -1, Note: e.Event.Note.Name}
			if e.Event.Bank != nil {
				s.Bank = *e.Event.Bank
			}
			if v := e.Event.Controller; v != nil {
				id := 0
				if err := json.Unmarshal(v.ID, &id); err != nil {
					return nil, fmt.Errorf("export: controller ID %s", v.ID)
				}
				s.ID, s.Name = []int{id}, strings.TrimSpace(v.Name)
			}
			if v := e.Event.Manufacturer; v != nil {
				if err := json.Unmarshal(v.ID, &s.ID); err != nil {
					return nil, fmt.Errorf("export: manufacturer ID %s", v.ID)
				}
				s.Name, s.Region = strings.TrimSpace(v.Name), v.Region
			}
			track = append(track, s)
		}
		list = append(list, track)
	}
	return list, nil
}

// shownInTable reads what is shown of each event from a table (with tabs).
func shownInTable(text string, f File) ([][]Shown, error) {
	rows, err := parseSeparated(text, '\t')
	if err != nil {
		return nil, fmt.Errorf("table: %v", err)
	}
	for len(rows) > 0 && len(rows[0]) > 0 && rows[0][0] == "Tick" {
		rows = rows[1:]
	}
	list := [][]Shown{}
	for i, t := range f.Tracks {
		track := []Shown{}
		for j, e := range t {
			if j >= len(rows) || 7*i+6 >= len(rows[j]) {
				return nil, fmt.Errorf("table: no row for event %d of track %d", j, i)
			}
			s := Shown{Bank: -1}
			d := rows[j][7*i+6]
			switch e.Kind {
			case "NoteOn", "NoteOff":
				s.Note = strings.TrimSpace(d)
			case "ProgramChange":
				if v := tableBank.FindStringSubmatch(d); v != nil {
					s.Bank, _ = strconv.Atoi(v[1])
				}
			case "Controller":
				if v := tableController.FindStringSubmatch(d); v != nil {
					id, _ := strconv.Atoi(v[1])
					s.ID, s.Name = []int{id}, strings.TrimSpace(v[2])
				}
			case "SysExMessage":
				if v := tableSysEx.FindStringSubmatch(d); v != nil {
					s.Region = v[2]
					if k := strings.LastIndex(v[3], ","); k >= 0 {
						s.Name = strings.TrimSpace(v[3][:k])
					}
				}
			case "SequencerSpecificEvent":
				if k := strings.LastIndex(d, "["); k >= 0 {
					s.Name = strings.TrimSpace(d[:k])
				}
			}
			track = append(track, s)
		}
		list = append(list, track)
	}
	return list, nil
}

func (s Shown) check(e Ev, x Context) error {
	switch e.Kind {
	case "NoteOn", "NoteOff":
		if s.Note != x.Name {
			return fmt.Errorf("expected note %s, got %q", x.Name, s.Note)
		}
	case "ProgramChange":
		if s.Bank != x.Bank {
			return fmt.Errorf("expected bank %d, got %d", x.Bank, s.Bank)
		}
	case "Controller":
		if len(s.ID) != 1 || s.ID[0] != e.V[0] {
			return fmt.Errorf("expected controller %d, got %v", e.V[0], s.ID)
		}
		if want := controllerNames[e.V[0]]; want != "" && s.Name != want {
			return fmt.Errorf("controller %d: expected %q, got %q", e.V[0], want, s.Name)
		} else if want == "" && named(s.Name) {
			return fmt.Errorf("undefined controller %d has the name %q", e.V[0], s.Name)
		}
	case "SysExMessage", "SequencerSpecificEvent":
		m := makerOf(e.M)
		if s.Name != m.Name || s.Region != "" && s.Region != m.Region {
			return fmt.Errorf("manufacturer % X: expected %s %q, got %s %q", e.M, m.Region, m.Name, s.Region, s.Name)
		}
		if s.ID != nil && !slices.Equal(s.ID, ints(e.M)) {
			return fmt.Errorf("manufacturer % X has the ID %v", e.M, s.ID)
		}
	}
	return nil
}

// checkShown compares what is shown with what should be, for the kinds of events that matter.
func checkShown(where string, f File, c4 bool, got [][]Shown, kinds []string) error {
	if len(got) != len(f.Tracks) {
		return fmt.Errorf("%s: expected %d tracks, got %d", where, len(f.Tracks), len(got))
	}
	for i, t := range f.Tracks {
		if len(got[i]) != len(t) {
			return fmt.Errorf("%s: track %d: expected %d events, got %d", where, i, len(t), len(got[i]))
		}
		x := contexts(t, c4)
		for j, e := range t {
			if !slices.Contains(kinds, e.Kind) {
				continue
			}
			if err := got[i][j].check(e, x[j]); err != nil {
				return fmt.Errorf("%s: track %d, event %d (%v): %v", where, i, j, e, err)
			}
		}
	}
	return nil
}

func shownBy(kinds ...string) func(c TextCase, o *Obs) error {
	return func(c TextCase, o *Obs) error {
		n := 0
		for _, t := range c.F.Tracks {
			for _, e := range t {
				if slices.Contains(kinds, e.Kind) {
					n++
				}
			}
		}
		o.Nontrivial(n > 0)
		setMiddleC(c.C4)
		defer setMiddleC(false)
		b, _ := c.E.encode(c.F)
		smf, err := decode(b)
		if err != nil {
			return fmt.Errorf("valid MIDI file rejected: %v", err)
		}
		text, err := disassembleText(smf)
		if err != nil {
			return fmt.Errorf("error disassembling: %v", err)
		}
		if got, err := shownInListing(text); err != nil {
			return err
		} else if err := checkShown("listing", c.F, c.C4, got, kinds); err != nil {
			return err
		}
		doc, err := exportJSON(smf)
		if err != nil {
			return fmt.Errorf("error exporting: %v", err)
		}
		if got, err := shownInExport(doc); err != nil {
			return err
		} else if err := checkShown("export", c.F, c.C4, got, kinds); err != nil {
			return err
		}
		if slices.Contains(kinds, "SysExMessage") || c.F.Format == 2 { // the table, for some
			return checkShownTable(c, b, kinds)
		}
		return nil
	}
}

func checkShownTable(c TextCase, b []byte, kinds []string) error {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	in, out := filepath.Join(dir, "x.mid"), filepath.Join(dir, "x.tsv")
	if err := os.WriteFile(in, b, 0600); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	if r := runCommand("tsv", "--out", out, in); r.Error != nil {
		return fmt.Errorf("tsv: %v", r.Error)
	}
	table, err := os.ReadFile(out)
	if err != nil {
		return fmt.Errorf("tsv: %v", err)
	}
	got, err := shownInTable(string(table), c.F)
	if err != nil {
		return err
	}
	return checkShown("table", c.F, c.C4, got, kinds)
}

// checkShownCLI is for the command line tool, with and without --C4.
func checkShownCLI(kinds ...string) func(c TextCase, o *Obs) error {
	return func(c TextCase, o *Obs) error {
		o.Nontrivial(len(c.F.Tracks) > 0)
		o.Label(c.C4, "--C4")
		dir := scratchDir()
		defer os.RemoveAll(dir)
		b, _ := c.E.encode(c.F)
		in := filepath.Join(dir, "x.mid")
		if err := os.WriteFile(in, b, 0600); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		run := func(command string, out string, args ...string) ([]byte, error) {
			list := append([]string{command}, args...)
			if c.C4 {
				list = append(list, "--C4")
			}
			cmd := exec.Command(os.Getenv("VP_CLI"), append(list, "--out", filepath.Join(dir, out), in)...)
			if b, err := cmd.CombinedOutput(); err != nil {
				return nil, fmt.Errorf("%s: %v\n%s", command, err, clip(string(b), 2000))
			}
			return os.ReadFile(filepath.Join(dir, out))
		}
		if text, err := run("disassemble", "x.txt"); err != nil {
			return err
		} else if got, err := shownInListing(string(text)); err != nil {
			return err
		} else if err := checkShown("midiasm disassemble", c.F, c.C4, got, kinds); err != nil {
			return err
		}
		if text, err := run("export", "x.json"); err != nil {
			return err
		} else if got, err := shownInExport(text); err != nil {
			return err
		} else if err := checkShown("midiasm export", c.F, c.C4, got, kinds); err != nil {
			return err
		}
		if text, err := run("tsv", "x.tsv"); err != nil {
			return err
		} else if got, err := shownInTable(string(text), c.F); err != nil {
			return err
		} else if err := checkShown("midiasm tsv", c.F, c.C4, got, kinds); err != nil {
			return err
		}
		if c.F.Division > 0x7fff || len(c.F.Tracks) == 0 || !slices.Contains(kinds, "NoteOn") {
			return nil
		}
		want := refNotes(c.F, 0, c.C4)
		text, err := run("notes", "x.notes")
		if err != nil {
			return err
		}
		list, err := parseNotes(string(text))
		if err != nil {
			return err
		}
		if err := sameNames("midiasm notes", want, list); err != nil {
			return err
		}
		if text, err = run("notes", "y.notes", "--json"); err != nil {
			return err
		}
		if list, err = parseNotesJSON(text); err != nil {
			return err
		}
		return sameNames("midiasm notes --json", want, list)
	}
}

// sameNames compares the names in a list of notes (in whatever order) with the expected ones.
func sameNames(where string, want []Played, got []Listed) error {
	a, b := []string{}, []string{}
	for _, p := range want {
		a = append(a, fmt.Sprintf("%d %s", p.Note, p.Name))
	}
	for _, l := range got {
		b = append(b, fmt.Sprintf("%d %s", l.Note, l.Name))
	}
	slices.Sort(a)
	slices.Sort(b)
	if !slices.Equal(a, b) {
		return fmt.Errorf("%s: expected %s, got %s", where, clip(fmt.Sprint(a), 1000), clip(fmt.Sprint(b), 1000))
	}
	return nil
}

// ---- C16: the note of a single event -----------------------------------------------------------------

type NamedCase struct {
	Kind string
	Ch   int
	Note int
	Form string // binary, json
	C4   bool
}

func checkSingleName(c NamedCase, o *Obs) error {
	o.Nontrivial(true)
	setMiddleC(c.C4)
	defer setMiddleC(false)
	e := Ev{Kind: c.Kind, Ch: c.Ch, V: []int{c.Note, 64}}
	var b []byte
	if c.Form == "binary" {
		_, raw := encodeTrack([]Ev{e}, plain())
		b = raw[0]
	} else {
		b, _ = json.Marshal(obj{"event": jsonEvent(e)})
	}
	x := events.Event{}
	var err error
	if c.Form == "binary" {
		err = x.UnmarshalBinary(b)
	} else {
		err = x.UnmarshalJSON(b)
	}
	if err != nil {
		return fmt.Errorf("valid event rejected: %v", err)
	}
	_, info, err := adaptEvent(x.Event)
	if err != nil {
		return err
	}
	if want := noteName(c.Note, false, c.C4); info.Note != want {
		return fmt.Errorf("%+v: expected note %s, got %q", c, want, info.Note)
	}
	return nil
}

func plainContextCase(t *rapid.T, only ...string) TextCase {
	c := genContextCase(t, only...)
	for _, t := range c.F.Tracks {
		for j := range t {
			if isText(t[j].Kind) {
				t[j].D = []byte("abc")
			}
		}
	}
	return c
}

func init() {
	noteKinds := []string{"NoteOn", "NoteOff"}
	nameKinds := []string{"NoteOn", "NoteOff", "KeySignature", "NoteOn", "NoteOff", "Controller", "ProgramChange", "Tempo", "Text"}
	bankKinds := []string{"Controller", "ProgramChange", "Controller", "ProgramChange", "NoteOn", "Text"}
	lookups := []string{"SysExMessage", "SequencerSpecificEvent", "Controller"}
	genLookup := func(t *rapid.T) TextCase {
		o := Opts{Text: AnyBytes, Packets: true, Only: lookups}
		if rapid.Bool().Draw(t, "known") {
			o.Manufacturer = genKnownManufacturer
		}
		return genTextCase(t, o)
	}
	property("C16", "shown", 24000, 250000, func(t *rapid.T) TextCase { return plainContextCase(t, nameKinds...) }, shownBy(noteKinds...))
	property("C16", "cli", 1200, 12000, func(t *rapid.T) TextCase { return plainContextCase(t, nameKinds...) }, checkShownCLI(noteKinds...))
	enumeration("C16", "single", func(tier string, yield func(NamedCase)) {
		for _, kind := range noteKinds {
			for n := 0; n < 128; n++ {
				for ch := 0; ch < 16; ch++ {
					for _, form := range []string{"binary", "json"} {
						yield(NamedCase{kind, ch, n, form, false})
						yield(NamedCase{kind, ch, n, form, true})
					}
				}
			}
		}
	}, checkSingleName)
	property("C17", "shown", 24000, 250000, func(t *rapid.T) TextCase { return plainContextCase(t, bankKinds...) }, shownBy("ProgramChange"))
	property("C17", "cli", 800, 8000, func(t *rapid.T) TextCase { return plainContextCase(t, bankKinds...) }, checkShownCLI("ProgramChange"))
	property("C26", "shown", 16000, 160000, genLookup, shownBy(lookups...))
	property("C26", "cli", 800, 8000, genLookup, checkShownCLI(lookups...))
	enumeration("C26", "shown-all", func(tier string, yield func(TextCase)) { // every controller and every manufacturer ID
		one := func(list ...Ev) {
			yield(TextCase{Case: Case{F: File{Format: 1, Division: 96, Tracks: [][]Ev{append(list, Ev{Kind: "EndOfTrack"})}}}})
		}
		controllers, short := []Ev{}, []Ev{}
		for id := 0; id < 128; id++ {
			controllers = append(controllers, Ev{Kind: "Controller", Ch: id % 16, V: []int{id, 1}})
			if id > 0 {
				m := []byte{byte(id)}
				short = append(short, Ev{Kind: "SysExMessage", M: m, D: []byte{1}, End: true}, Ev{Kind: "SequencerSpecificEvent", M: m, D: []byte{1}})
			}
			long := []Ev{}
			for j := 0; j < 128; j++ {
				m := []byte{0, byte(id), byte(j)}
				long = append(long, Ev{Kind: "SysExMessage", M: m, D: []byte{1}, End: true}, Ev{Kind: "SequencerSpecificEvent", M: m, D: []byte{1}})
			}
			one(long...)
		}
		one(controllers...)
		one(short...)
	}, shownBy(lookups...))
}
