package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/transcriptaze/midiasm/ops/notes"
	"pgregory.net/rapid"
)

// Context is what the events before an event make of it.
type Context struct {
	Alias string // the name in the present key
	Name  string // name of the note
	Bank  int
}

// contexts works out the note names and the banks of a track.
func contexts(t []Ev, c4 bool) []Context {
	flats := false
	names := map[[2]int]string{}
	bank := map[int]int{}
	list := []Context{}
	for _, e := range t {
		c := Context{}
		switch e.Kind {
		case "KeySignature":
			flats = e.V[0] < 0
		case "NoteOn":
			c.Name = noteName(e.V[0], flats, c4)
			c.Alias = c.Name
			names[[2]int{e.Ch, e.V[0]}] = c.Name
		case "NoteOff": // named as the note that it ends
			c.Name = noteName(e.V[0], flats, c4)
			c.Alias = c.Name
			if s, ok := names[[2]int{e.Ch, e.V[0]}]; ok {
				c.Name = s
			}
		case "Controller":
			if e.V[0] == 0 {
				bank[e.Ch] = bank[e.Ch]&0x7f | e.V[1]<<7
			} else if e.V[0] == 32 {
				bank[e.Ch] = bank[e.Ch]&0x3f80 | e.V[1]
			}
		case "ProgramChange":
			c.Bank = bank[e.Ch]
		}
		list = append(list, c)
	}
	return list
}

func genContextCase(t *rapid.T, only ...string) TextCase {
	o := Opts{Text: AnyBytes, Only: only, MaxEvents: 30, MaxTracks: 4}
	c := genTextCase(t, o)
	if rapid.Bool().Draw(t, "few") { // few notes and channels, so that they meet
		for _, t := range c.F.Tracks {
			for j := range t {
				e := &t[j]
				e.Ch &= 1
				if e.Kind == "NoteOn" || e.Kind == "NoteOff" {
					e.V[0] = e.V[0]&0x70 | []int{1, 3, 6, 10, 8, 4, 0, 11}[e.V[0]&7]
					e.V[0] &= 0x4f
				}
			}
		}
	}
	return c
}

func decoded(c TextCase) (File, [][]Info, error) {
	b, _ := c.E.encode(c.F)
	smf, err := decode(b)
	if err != nil {
		return File{}, nil, fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	return adapt(smf)
}

// C16: notes are named by the key signature in force and the middle C convention.

func checkNames(c TextCase, o *Obs) error {
	setMiddleC(c.C4)
	defer setMiddleC(false)
	b, _ := c.E.encode(c.F)
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	_, infos, err := adapt(smf)
	if err != nil {
		return err
	}
	n := 0
	for i, t := range c.F.Tracks {
		for j, x := range contexts(t, c.C4) {
			if x.Name == "" {
				continue
			}
			n++
			o.Label(strings.Contains(x.Name, "♭"), "flats")
			o.Label(strings.Contains(x.Name, "♯"), "sharps")
			if infos[i][j].Note != x.Name {
				return fmt.Errorf("track %d, event %d (%v): expected note %s, got %s", i, j, t[j], x.Name, infos[i][j].Note)
			}
		}
	}
	o.Nontrivial(n > 2)
	o.Label(c.C4, "C4")
	if c.F.Division > 0x7fff {
		return nil
	}
	// the notes list names a note by the key in force where it starts
	var out bytes.Buffer
	p := notes.Notes{Writer: &out}
	if err := p.Execute(smf); err != nil {
		return fmt.Errorf("notes list: %v", err)
	}
	list, err := parseNotes(out.String())
	if err != nil {
		return err
	}
	names := map[string]int{}
	for _, p := range refNotes(c.F, 0, c.C4) {
		names[fmt.Sprintf("%s channel:%d note:%02X velocity:%d", p.Name, p.Ch, p.Note, p.Velocity)]++
	}
	for _, l := range list {
		k := fmt.Sprintf("%s channel:%d note:%02X velocity:%d", l.Name, l.Ch, l.Note, l.Velocity)
		names[k]--
		if names[k] < 0 && noteName(l.Note, false, c.C4) != l.Name && noteName(l.Note, true, c.C4) != l.Name {
			return fmt.Errorf("notes list: note %02X has the name %s", l.Note, l.Name)
		}
	}
	for k, v := range names {
		if v > 0 {
			for q, w := range names { // the same note with the other of its names
				if w < 0 && strings.SplitN(q, " ", 2)[1] == strings.SplitN(k, " ", 2)[1] {
					return fmt.Errorf("notes list: expected %s, got %s", k, q)
				}
			}
		}
	}
	return nil
}

// C17: a program change has the bank last selected on its channel, in its track.

func checkBanks(c TextCase, o *Obs) error {
	_, infos, err := decoded(c)
	if err != nil {
		return err
	}
	for i, t := range c.F.Tracks {
		for j, x := range contexts(t, false) {
			if t[j].Kind != "ProgramChange" {
				continue
			}
			o.Nontrivial(x.Bank > 0)
			o.Label(x.Bank > 127, "bank over 127")
			if infos[i][j].Bank != x.Bank {
				return fmt.Errorf("track %d, event %d (%v): expected bank %d, got %d", i, j, t[j], x.Bank, infos[i][j].Bank)
			}
		}
	}
	return nil
}

// C26: controllers and manufacturers have their published names.

func checkLookup(c TextCase, o *Obs) error {
	f, infos, err := decoded(c)
	if err != nil {
		return err
	}
	for i, t := range c.F.Tracks {
		for j, e := range t {
			x := infos[i][j]
			if g := f.Tracks[i][j]; g.Kind != e.Kind || e.Kind == "Controller" && g.V[0] != e.V[0] || !bytes.Equal(g.M, e.M) {
				return fmt.Errorf("expected %v, got %v", e, g) // another controller or manufacturer
			}
			switch e.Kind {
			case "Controller":
				if want := controllerNames[e.V[0]]; want != "" && strings.TrimSpace(x.Name) != want {
					return fmt.Errorf("controller %d: expected %q, got %q", e.V[0], want, x.Name)
				} else if want == "" && named(x.Name) {
					return fmt.Errorf("undefined controller %d has the name %q", e.V[0], x.Name)
				}
				o.Nontrivial(true)
			case "SysExMessage", "SequencerSpecificEvent":
				m := makerOf(e.M)
				if strings.TrimSpace(x.Name) != m.Name || x.Region != m.Region {
					return fmt.Errorf("manufacturer % X: expected %s %q, got %s %q", e.M, m.Region, m.Name, x.Region, x.Name)
				}
				o.Nontrivial(true)
				o.Label(m.Name != "<unknown>", "known manufacturer")
				o.Label(m.Name == "<unknown>", "unknown manufacturer")
			}
		}
	}
	return nil
}

// named is true if a name is that of some defined controller.
func named(name string) bool {
	for _, s := range controllerNames {
		if s != "" && s == strings.TrimSpace(name) {
			return true
		}
	}
	return false
}

func makerOf(id []byte) maker {
	for _, m := range makers {
		if string(m.ID) == string(id) {
			return m
		}
	}
	return maker{id, "<unknown>", "<unknown>"}
}

// C20: the disassembly shows every event, with its values, bytes, tick and delta.

func listing(e Ev, x Context) string {
	w := &writer{}
	switch e.Kind {
	case "NoteOn", "NoteOff":
		return fmt.Sprintf("channel:%d note:%s, velocity:%d", e.Ch, x.Name, e.V[1])
	case "ProgramChange":
		return fmt.Sprintf("channel:%d bank:%d, program:%d", e.Ch, x.Bank, e.V[0])
	case "SysExMessage", "SequencerSpecificEvent":
		return makerOf(e.M).Name + ", " + w.hex(e.D)
	}
	return w.content(e)
}

var eventLine = regexp.MustCompile(`(?s)^(.*?)\s+tick:(\d+)\s+delta:(\d+)\s+([0-9A-F]{2}) ([A-Za-z]+)\s*(.*)$`)
var channelPad = regexp.MustCompile(`^(channel:\d+) +`)

// hexPrefix checks that a hex column shows the bytes, or so many of them as there is room for.
func hexPrefix(column string, b []byte) error {
	s := strings.TrimSpace(column)
	want := fmt.Sprintf("% X", b)
	if strings.HasSuffix(s, "…") {
		s = strings.TrimSuffix(s, "…")
		if !strings.HasPrefix(want, s) || len(s) == len(want) || len(s) < 20 {
			return fmt.Errorf("expected the first bytes of %s, got %q", clip(want, 100), column)
		}
		return nil
	}
	if s != want {
		return fmt.Errorf("expected bytes %s, got %q", clip(want, 100), column)
	}
	return nil
}

func checkListing(c TextCase, o *Obs) error {
	c.classify(o)
	setMiddleC(c.C4)
	defer setMiddleC(false)
	b, raw := c.E.encode(c.F)
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	text, err := disassembleText(smf)
	if err != nil {
		return fmt.Errorf("error disassembling: %v", err)
	}
	return compareListing(c, b, raw, text)
}

func compareListing(c TextCase, b []byte, raw [][][]byte, text string) error {
	lines := []string{}
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) != "" {
			lines = append(lines, l)
		}
	}
	next := func(what string) (string, error) {
		if len(lines) == 0 {
			return "", fmt.Errorf("missing line for %s\n%s", what, clip(text, 3000))
		}
		l := lines[0]
		lines = lines[1:]
		return l, nil
	}
	l, err := next("MThd")
	if err != nil {
		return err
	}
	division := fmt.Sprintf("metrical time:%d ppqn", c.F.Division)
	if c.F.Division > 0x7fff {
		division = fmt.Sprintf("SMPTE:%d fps,%d sub-frames", 256-c.F.Division>>8, c.F.Division&0xff)
	}
	want := fmt.Sprintf("% X MThd length:6, format:%d, tracks:%d, %s", b[:14], c.F.Format, len(c.F.Tracks), division)
	if strings.Join(strings.Fields(l), " ") != want {
		return fmt.Errorf("header line: expected %q, got %q", want, l)
	}
	for i, t := range c.F.Tracks {
		l, err := next(fmt.Sprintf("track %d", i))
		if err != nil {
			return err
		}
		chunk := []byte{}
		for _, r := range raw[i] {
			chunk = append(chunk, r...)
		}
		k := strings.Index(l, "MTrk")
		if want := fmt.Sprintf("MTrk %d length:%d", i, len(chunk)); k < 0 || strings.Join(strings.Fields(l[k:]), " ") != want {
			return fmt.Errorf("track line: expected %q, got %q", want, l)
		}
		n := len(chunk)
		if err := hexPrefix(l[:k], append([]byte{'M', 'T', 'r', 'k', byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, chunk...)); err != nil {
			return fmt.Errorf("track %d: %v", i, err)
		}
		tick := uint64(0)
		x := contexts(t, c.C4)
		for j, e := range t {
			tick += uint64(e.Delta)
			where := fmt.Sprintf("track %d, event %d (%v)", i, j, e)
			l, err := next(where)
			if err != nil {
				return err
			}
			m := eventLine.FindStringSubmatch(l)
			if m == nil {
				return fmt.Errorf("%s: unexpected line %q", where, l)
			}
			if err := hexPrefix(m[1], raw[i][j]); err != nil {
				return fmt.Errorf("%s: %v", where, err)
			}
			if v, _ := strconv.ParseUint(m[2], 10, 64); v != tick {
				return fmt.Errorf("%s: expected tick %d: %q", where, tick, l)
			}
			if v, _ := strconv.ParseUint(m[3], 10, 64); v != uint64(e.Delta) {
				return fmt.Errorf("%s: expected delta %d: %q", where, e.Delta, l)
			}
			code := e.status()
			if v, ok := metaTypes[e.Kind]; ok {
				code = v
			}
			if m[4] != fmt.Sprintf("%02X", code) || m[5] != e.Kind {
				return fmt.Errorf("%s: expected %02X %s: %q", where, code, e.Kind, l)
			}
			got := channelPad.ReplaceAllString(m[6], "$1 ")
			want := listing(e, x[j])
			if e.Kind == "Controller" {
				if controllerNames[e.V[0]] == "" || strings.TrimSpace(got) != want {
					// undefined controllers, and names with trailing spaces
					p, s := fmt.Sprintf("channel:%d %d/", e.Ch, e.V[0]), fmt.Sprintf(", value:%d", e.V[1])
					if !strings.HasPrefix(got, p+controllerNames[e.V[0]]) || !strings.HasSuffix(got, s) {
						return fmt.Errorf("%s: expected %q: %q", where, want, l)
					}
				}
				continue
			}
			if strings.TrimRight(got, " ") != strings.TrimRight(want, " ") {
				return fmt.Errorf("%s: expected %q: %q", where, want, l)
			}
		}
	}
	if len(lines) > 0 {
		return fmt.Errorf("unexpected line %q", lines[0])
	}
	return nil
}

// C22: the export has every event, with its values.

func contains(want, got any) string {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("expected an object, got %v", got)
		}
		for k, v := range w {
			if _, ok := g[k]; !ok {
				return fmt.Sprintf("missing %q", k)
			}
			if d := contains(v, g[k]); d != "" {
				return fmt.Sprintf("%s: %s", k, d)
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok && !(got == nil && len(w) == 0) || len(g) != len(w) {
			return fmt.Sprintf("expected %v, got %v", clip(fmt.Sprint(w), 300), clip(fmt.Sprint(got), 300))
		}
		for i := range w {
			if d := contains(w[i], g[i]); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
		return ""
	}
	if want != got {
		return fmt.Sprintf("expected %v, got %v", clip(fmt.Sprint(want), 300), clip(fmt.Sprint(got), 300))
	}
	return ""
}

func exported(e Ev, x Context) obj {
	o := jsonEvent(e)
	o["status"] = int(e.status())
	if v, ok := metaTypes[e.Kind]; ok {
		o["type"] = int(v)
	}
	switch e.Kind {
	case "NoteOn", "NoteOff":
		o["note"] = obj{"value": e.V[0], "name": x.Name}
	case "ProgramChange":
		o["bank"] = x.Bank
	case "KeySignature":
		o["key"] = keyName(e.V[0], e.V[1])
	case "SysExMessage", "SequencerSpecificEvent":
		m := makerOf(e.M)
		o["manufacturer"] = obj{"id": ints(e.M), "name": m.Name, "region": m.Region}
	}
	return o
}

func checkExport(c TextCase, o *Obs) error {
	c.classify(o)
	setMiddleC(c.C4)
	defer setMiddleC(false)
	b, _ := c.E.encode(c.F)
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	text, err := exportJSON(smf)
	if err != nil {
		return fmt.Errorf("error exporting: %v", err)
	}
	return compareExport(c, text)
}

func compareExport(c TextCase, text []byte) error {
	var got any
	if err := json.Unmarshal(text, &got); err != nil {
		return fmt.Errorf("export is not valid JSON: %v\n%s", err, clip(string(text), 2000))
	}
	h := obj{"Tag": "MThd", "Length": 6, "Format": c.F.Format, "Tracks": len(c.F.Tracks), "Division": c.F.Division, "SMPTETimeCode": c.F.Division > 0x7fff}
	if c.F.Division > 0x7fff {
		h["SubFrames"], h["FPS"], h["DropFrame"] = c.F.Division&0xff, 256-c.F.Division>>8, c.F.Division>>8 == 0xe3
	} else {
		h["PPQN"] = c.F.Division
	}
	tracks := []any{}
	for i, t := range c.F.Tracks {
		list := []any{}
		x := contexts(t, c.C4)
		for j, e := range t {
			list = append(list, obj{"event": exported(e, x[j])})
		}
		tracks = append(tracks, obj{"tag": "MTrk", "track-number": i, "events": list})
	}
	doc, err := json.Marshal(obj{"header": h, "tracks": tracks})
	if err != nil {
		return err
	}
	var want any
	if err := json.Unmarshal(bytes.TrimSpace(doc), &want); err != nil {
		return err
	}
	trim(got)
	if d := contains(want, got); d != "" {
		return fmt.Errorf("export: %s\n%s", d, clip(string(text), 2000))
	}
	return nil
}

// trim removes the white space around the names of manufacturers.
func trim(v any) {
	switch x := v.(type) {
	case map[string]any:
		if m, ok := x["manufacturer"].(map[string]any); ok {
			if s, ok := m["name"].(string); ok {
				m["name"] = strings.TrimSpace(s)
			}
		}
		for _, y := range x {
			trim(y)
		}
	case []any:
		for _, y := range x {
			trim(y)
		}
	}
}

func init() {
	nameKinds := []string{"NoteOn", "NoteOff", "KeySignature", "NoteOn", "NoteOff", "Controller", "ProgramChange", "Tempo"}
	property("C16", "names", 250000, 2000000, func(t *rapid.T) TextCase { return genContextCase(t, nameKinds...) }, checkNames)
	enumeration("C16", "sweep", sweepTextCases, checkNames)
	enumeration("C16", "keys", func(tier string, yield func(TextCase)) {
		// every note that starts in one key and ends in another
		for a := -7; a <= 7; a++ {
			for b := -7; b <= 7; b++ {
				list := []Ev{{Kind: "KeySignature", V: []int{a, 0}}}
				for n := 0; n < 128; n++ {
					list = append(list, Ev{Kind: "NoteOn", Ch: n % 16, V: []int{n, 1}})
				}
				list = append(list, Ev{Kind: "KeySignature", V: []int{b, 1}})
				for n := 0; n < 128; n++ {
					list = append(list, Ev{Kind: "NoteOff", Ch: n % 16, Delta: 1, V: []int{n, 0}})
				}
				for n := 0; n < 128; n++ {
					list = append(list, Ev{Kind: "NoteOn", Ch: (n + 1) % 16, V: []int{n, 1}}, Ev{Kind: "NoteOff", Ch: (n + 2) % 16, V: []int{n, 1}})
				}
				if a == -b { // on every channel at once
					for _, kind := range []string{"NoteOn", "NoteOff"} {
						for n := 0; n < 128; n++ {
							for ch := 0; ch < 16; ch++ {
								list = append(list, Ev{Kind: kind, Ch: ch, V: []int{n, 1}})
							}
						}
						list = append(list, Ev{Kind: "KeySignature", V: []int{a, 1}})
					}
				}
				f := File{Format: 1, Division: 96, Tracks: [][]Ev{append(list, Ev{Kind: "EndOfTrack"}), {{Kind: "NoteOn", V: []int{61, 64}}, {Kind: "EndOfTrack"}}}}
				yield(TextCase{Case: Case{F: f}})
				yield(TextCase{Case: Case{F: f}, C4: true})
			}
		}
	}, checkNames)
	property("C17", "banks", 200000, 2000000, func(t *rapid.T) TextCase {
		return genContextCase(t, "Controller", "ProgramChange", "Controller", "ProgramChange", "NoteOn", "Text")
	}, checkBanks)
	enumeration("C17", "sweep", func(tier string, yield func(TextCase)) {
		for m := 0; m < 128; m++ { // every bank
			list := []Ev{}
			for l := 0; l < 128; l++ {
				ch := (m + l) % 16
				list = append(list, Ev{Kind: "Controller", Ch: ch, V: []int{0, m}}, Ev{Kind: "Controller", Ch: ch, V: []int{32, l}}, Ev{Kind: "ProgramChange", Ch: ch, V: []int{l}},
					Ev{Kind: "ProgramChange", Ch: (ch + 1) % 16, V: []int{l}})
			}
			yield(TextCase{Case: Case{F: File{Format: 1, Division: 96, Tracks: [][]Ev{append(list, Ev{Kind: "EndOfTrack"}), {{Kind: "ProgramChange", V: []int{1}}, {Kind: "EndOfTrack"}}}}}})
		}
		for id := 0; id < 128; id++ { // only controllers 0 and 32 select a bank
			list := []Ev{{Kind: "Controller", V: []int{0, 1}}, {Kind: "Controller", V: []int{32, 2}}, {Kind: "Controller", V: []int{id, 99}}, {Kind: "ProgramChange", V: []int{5}}, {Kind: "EndOfTrack"}}
			yield(TextCase{Case: Case{F: File{Format: 1, Division: 96, Tracks: [][]Ev{list}}}})
		}
	}, checkBanks)
	property("C20", "listing", 24000, 250000, func(t *rapid.T) TextCase {
		o := textOpts()
		o.Manufacturer = nil
		return genTextCase(t, o)
	}, checkListing)
	enumeration("C20", "sweep", sweepTextCases, checkListing)
	property("C22", "export", 60000, 600000, func(t *rapid.T) TextCase { return genTextCase(t, jsonOpts()) }, checkExport)
	enumeration("C22", "sweep", sweepTextCases, checkExport)
	enumeration("C26", "all", func(tier string, yield func(TextCase)) {
		one := func(list ...Ev) {
			yield(TextCase{Case: Case{F: File{Format: 1, Division: 96, Tracks: [][]Ev{append(list, Ev{Kind: "EndOfTrack"})}}}})
		}
		for id := 0; id < 128; id++ {
			one(Ev{Kind: "Controller", V: []int{id, 1}})
			if id > 0 {
				one(Ev{Kind: "SysExMessage", M: []byte{byte(id)}, D: []byte{1}, End: true}, Ev{Kind: "SequencerSpecificEvent", M: []byte{byte(id)}, D: []byte{1}})
			}
			for j := 0; j < 128; j++ {
				one(Ev{Kind: "SysExMessage", M: []byte{0, byte(id), byte(j)}, D: []byte{1}, End: true}, Ev{Kind: "SequencerSpecificEvent", M: []byte{0, byte(id), byte(j)}, D: []byte{1}})
			}
		}
	}, checkLookup)
	property("C26", "lookup", 100000, 600000, func(t *rapid.T) TextCase {
		o := Opts{Text: AnyBytes, Packets: true, Only: []string{"SysExMessage", "SequencerSpecificEvent", "Controller"}}
		if rapid.Bool().Draw(t, "known") {
			o.Manufacturer = genKnownManufacturer
		}
		return genTextCase(t, o)
	}, checkLookup)
}
