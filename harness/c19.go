package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/transcriptaze/midiasm/ops/disassemble"
	"pgregory.net/rapid"
)

// ---- C19: split files --------------------------------------------------------------------------------

type SplitCase struct {
	TextCase
	Name string // of the MIDI file
	Out  string // --out, relative to the scratch directory
	Old  bool   // the files of an earlier, longer disassembly are there
}

func (c SplitCase) String() string {
	return fmt.Sprintf("name:%q out:%q old:%v %v", c.Name, c.Out, c.Old, c.TextCase)
}

func filled(text string) []string {
	list := []string{}
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) != "" {
			list = append(list, l)
		}
	}
	return list
}

// tree lists the files below a directory, with their contents.
func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			b, _ := os.ReadFile(path)
			rel, _ := filepath.Rel(dir, path)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

func checkSplit(c SplitCase, o *Obs) error {
	c.classify(o)
	setMiddleC(c.C4)
	defer setMiddleC(false)
	dir := scratchDir()
	defer os.RemoveAll(dir)
	b, raw := c.E.encode(c.F)
	in := filepath.Join(dir, c.Name)
	os.MkdirAll(filepath.Dir(in), 0700)
	if err := os.WriteFile(in, b, 0600); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	base := strings.TrimSuffix(filepath.Base(c.Name), filepath.Ext(c.Name))
	folder := filepath.Dir(c.Name)
	args := []string{"--split"}
	if c.Out != "" {
		folder = c.Out
		args = append(args, "--out", filepath.Join(dir, c.Out))
	}
	expected := []string{c.Name, filepath.Join(folder, base+".MThd")}
	for i := range c.F.Tracks {
		expected = append(expected, filepath.Join(folder, fmt.Sprintf("%s-%d.MTrk", base, i)))
	}
	if c.Old {
		os.MkdirAll(filepath.Join(dir, folder), 0700)
		for _, f := range expected[1:] {
			if err := os.WriteFile(filepath.Join(dir, f), bytes.Repeat([]byte("an earlier disassembly\n"), 500), 0600); err != nil {
				return fmt.Errorf("HARNESS: %v", err)
			}
		}
	}
	whole := runCommand("disassemble", in)
	if whole.Error != nil {
		return fmt.Errorf("error disassembling: %v", whole.Error)
	}
	r := runCommand("disassemble", append(args, in)...)
	if r.Error != nil {
		return fmt.Errorf("error: %v", r.Error)
	}
	if r.Out != "" {
		return fmt.Errorf("unexpected output %q", clip(r.Out, 300))
	}
	files := tree(dir)
	if files[c.Name] != string(b) {
		return fmt.Errorf("the MIDI file was changed")
	}
	names := []string{}
	for f := range files {
		names = append(names, f)
	}
	sort.Strings(names)
	sorted := append([]string{}, expected...)
	sort.Strings(sorted)
	if strings.Join(names, "\n") != strings.Join(sorted, "\n") {
		return fmt.Errorf("expected files %q, got %q", sorted, names)
	}
	text := ""
	for i, f := range expected[1:] {
		lines := filled(files[f])
		what := "MThd length:"
		if i > 0 {
			what = fmt.Sprintf("MTrk %d length:", i-1)
		}
		if len(lines) == 0 || !strings.Contains(strings.Join(strings.Fields(lines[0]), " "), what) {
			return fmt.Errorf("%s does not start with %s\n%s", f, what, clip(files[f], 500))
		}
		if i == 0 && len(lines) != 1 {
			return fmt.Errorf("%s has %d lines", f, len(lines))
		}
		if i > 0 && len(lines) != 1+len(c.F.Tracks[i-1]) {
			return fmt.Errorf("%s: %d lines for %d events", f, len(lines), len(c.F.Tracks[i-1]))
		}
		text += strings.Join(lines, "\n") + "\n"
	}
	if w := strings.Join(filled(whole.Out), "\n") + "\n"; w != text {
		return fmt.Errorf("split files and listing differ:\n%s\n---- listing\n%s", clip(text, 2000), clip(w, 2000))
	}
	return compareListing(c.TextCase, b, raw, text)
}

// ---- C23: templates ----------------------------------------------------------------------------------

type TemplateCase struct {
	TextCase
	Kinds  []string // the kinds of event with a template of their own
	Prefix string
	Width  int
	Length int
	Split  bool  // loaded one at a time
	Styles []int // of the templates, in rotation
	Twice  bool  // other templates for the same kinds are loaded first
}

func (c TemplateCase) String() string {
	return fmt.Sprintf("kinds:%v prefix:%q width:%d length:%d styles:%v twice:%v %v", c.Kinds, c.Prefix, c.Width, c.Length, c.Styles, c.Twice, c.TextCase)
}

// the name of the template of a kind of event and the field that it is to show
var templateFields = map[string][2]string{
	"SequenceNumber": {"sequenceno", ".SequenceNumber"}, "Text": {"text", ".Text"}, "Copyright": {"copyright", ".Copyright"}, "TrackName": {"trackname", ".Name"},
	"InstrumentName": {"instrumentname", ".Name"}, "Lyric": {"lyric", ".Lyric"}, "Marker": {"marker", ".Marker"}, "CuePoint": {"cuepoint", ".CuePoint"},
	"ProgramName": {"programname", ".Name"}, "DeviceName": {"devicename", ".Name"}, "MIDIChannelPrefix": {"midichannelprefix", ".Channel"}, "MIDIPort": {"midiport", ".Port"},
	"EndOfTrack": {"endoftrack", ".Tag"}, "Tempo": {"tempo", ".Tempo"}, "SMPTEOffset": {"smpteoffset", ".Second"}, "TimeSignature": {"timesignature", ".Numerator"},
	"KeySignature": {"keysignature", ".Key"}, "SequencerSpecificEvent": {"sequencerspecificevent", ".Data"},
	"NoteOn": {"noteon", ".Velocity"}, "NoteOff": {"noteoff", ".Velocity"}, "PolyphonicPressure": {"polyphonicpressure", ".Pressure"}, "Controller": {"controller", ".Value"},
	"ProgramChange": {"programchange", ".Program"}, "ChannelPressure": {"channelpressure", ".Pressure"}, "PitchBend": {"pitchbend", ".Bend"},
	"SysExMessage": {"sysexmessage", ".Data"}, "SysExContinuation": {"sysexcontinuation", ".Data"}, "SysExEscape": {"sysexescape", ".Data"},
}

func shown(e Ev) string {
	switch e.Kind {
	case "EndOfTrack":
		return "EndOfTrack"
	case "SMPTEOffset":
		return fmt.Sprint(e.V[2])
	case "KeySignature":
		return keyName(e.V[0], e.V[1])
	case "NoteOn", "NoteOff", "Controller":
		return fmt.Sprint(e.V[1])
	case "SysExMessage", "SequencerSpecificEvent", "SysExContinuation", "SysExEscape":
		return (&writer{}).hex(e.D)
	}
	if isText(e.Kind) {
		return string(e.D)
	}
	return fmt.Sprint(e.V[0])
}

func refPad(width int, s string) string {
	if n := len([]rune(s)); n < width {
		s += strings.Repeat(" ", width-n)
	}
	return s
}

func refEllipsize(s string, n int) string {
	if len([]rune(s)) > n {
		return string([]rune(s)[:n-1]) + "…"
	}
	return s
}

// style returns the template of a kind of event.
func (c TemplateCase) style(i int, all map[string]string) string {
	k := c.Kinds[i]
	f := templateFields[k]
	switch c.Styles[i%len(c.Styles)] {
	case 1: // a constant
		return c.Prefix + "<" + k + ">"
	case 2: // by way of another template in the same file
		all["my-"+f[0]] = fmt.Sprintf("{{pad %d .Tag}}", c.Width)
		return fmt.Sprintf("%s{{template \"my-%s\" .}}[{{ellipsize %s %d}}]", c.Prefix, f[0], f[1], c.Length)
	case 3: // the value alone
		return fmt.Sprintf("%s{{%s}};", c.Prefix, f[1])
	case 4:
		return fmt.Sprintf("%s{{with %s}}{{pad %d .}}{{else}}{{pad %d %s}}{{end}}|", c.Prefix, f[1], c.Width, c.Width, f[1])
	case 5:
		return fmt.Sprintf("%s{{if eq (printf \"%%v\" .Tag) %q}}yes{{else}}no{{end}}", c.Prefix, k)
	}
	return fmt.Sprintf("%s{{pad %d .Tag}}[{{ellipsize %s %d}}]", c.Prefix, c.Width, f[1], c.Length)
}

// styled is what the template of a kind makes of an event.
func (c TemplateCase) styled(i int, e Ev) string {
	switch c.Styles[i%len(c.Styles)] {
	case 1:
		return c.Prefix + "<" + e.Kind + ">"
	case 3:
		return c.Prefix + shown(e) + ";"
	case 4:
		return c.Prefix + refPad(c.Width, shown(e)) + "|"
	case 5:
		return c.Prefix + "yes"
	}
	return c.Prefix + refPad(c.Width, e.Kind) + "[" + refEllipsize(shown(e), c.Length) + "]"
}

func checkTemplates(c TemplateCase, o *Obs) error {
	setMiddleC(c.C4)
	defer setMiddleC(false)
	b, _ := c.E.encode(c.F)
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	standard, err := disassembleText(smf)
	if err != nil {
		return err
	}
	d, err := disassemble.NewDisassemble()
	if err != nil {
		return err
	}
	custom := map[string]int{}
	all, before := map[string]string{}, map[string]string{}
	for i, k := range c.Kinds {
		custom[k] = i
		all[templateFields[k][0]] = c.style(i, all)
		before[templateFields[k][0]] = fmt.Sprintf("first {{.Tag}} %d", i)
	}
	load := func(m map[string]string) error {
		doc, _ := json.Marshal(map[string]any{"templates": m})
		return d.LoadTemplates(bytes.NewReader(doc))
	}
	if c.Twice {
		if err := load(before); err != nil {
			return err
		}
	}
	if c.Split {
		for k, v := range all {
			if err := load(map[string]string{k: v}); err != nil {
				return err
			}
		}
	} else if err := load(all); err != nil {
		return err
	}
	var w bytes.Buffer
	if err := d.Print(smf, "document", &w); err != nil {
		return fmt.Errorf("error with the templates loaded: %v", err)
	}
	want, got := filled(standard), filled(w.String())
	if len(want) != len(got) {
		return fmt.Errorf("expected %d lines, got %d", len(want), len(got))
	}
	n := 1
	for i, t := range c.F.Tracks {
		if got[n] != want[n] {
			return fmt.Errorf("track %d: expected %q, got %q", i, want[n], got[n])
		}
		n++
		for j, e := range t {
			expect := want[n]
			if style, ok := custom[e.Kind]; ok {
				k := len(expect)
				if m := eventLine.FindStringSubmatchIndex(expect); m != nil {
					k = m[8]
				}
				expect = expect[:k] + c.styled(style, e)
				o.Nontrivial(true)
			}
			if got[n] != expect {
				return fmt.Errorf("track %d, event %d (%v): expected %q, got %q", i, j, e, expect, got[n])
			}
			n++
		}
	}
	if got[0] != want[0] {
		return fmt.Errorf("header: expected %q, got %q", want[0], got[0])
	}
	again, err := disassembleText(smf)
	if err != nil || again != standard {
		return fmt.Errorf("the templates of one disassembler affect another: %v", err)
	}
	return nil
}

var splitNames = []string{"in.mid", "in.midi", "in", "a.b.mid", "with space.mid", "été♭.mid", "mid.mid", "a-0.mid", "sub/in.mid", "sub.d/in", "x.MThd.mid", "MTrk", "a.mid.b.mid", "in.mid.mid", "..mid", "sub.mid/in.mid", "in.", "a.mid/a.mid/a.mid", ".in.mid", "UP.MID", "%d-%s.mid"}

func init() {
	property("C19", "split", 12000, 200000, func(t *rapid.T) SplitCase {
		o := textOpts()
		o.Manufacturer, o.MaxTracks, o.Long = nil, 6, false
		return SplitCase{TextCase: genTextCase(t, o), Name: pick(t, "name", splitNames...), Out: pick(t, "out", "", "out", "new/folder", "a b", ".", "out.d"), Old: chance(t, "old", 1, 3)}
	}, checkSplit)
	kinds := []string{}
	for k := range templateFields {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	property("C23", "templates", 16000, 250000, func(t *rapid.T) TemplateCase {
		o := textOpts()
		o.Text, o.Manufacturer, o.Long, o.ManyTracks = Plain, nil, false, false
		c := TemplateCase{TextCase: genTextCase(t, o), Prefix: pick(t, "prefix", "", ">> ", "%s ", "<&>", "♯ ", "\\n"),
			Width: pick(t, "width", 0, 1, 10, 22, 40), Length: pick(t, "length", 1, 2, 5, 10, 42, 1000), Split: rapid.Bool().Draw(t, "split"), Twice: chance(t, "twice", 1, 4)}
		c.Styles = rapid.SliceOfN(rapid.IntRange(0, 5), 1, 6).Draw(t, "styles")
		n := rapid.IntRange(1, 6).Draw(t, "kinds")
		present := []string{}
		for _, t := range c.F.Tracks {
			for _, e := range t {
				present = append(present, e.Kind)
			}
		}
		for i := 0; i < n; i++ {
			if len(present) > 0 && rapid.Bool().Draw(t, "present") {
				c.Kinds = append(c.Kinds, pick(t, "kind", present...))
			} else {
				c.Kinds = append(c.Kinds, pick(t, "kind", kinds...))
			}
		}
		return c
	}, checkTemplates)
	enumeration("C23", "kinds", func(tier string, yield func(TemplateCase)) {
		list := []Ev{
			{Kind: "SequenceNumber", V: []int{7}}, {Kind: "MIDIChannelPrefix", V: []int{3}}, {Kind: "MIDIPort", V: []int{5}}, {Kind: "Tempo", V: []int{500000}},
			{Kind: "SMPTEOffset", V: []int{1, 2, 3, 25, 4, 5}}, {Kind: "TimeSignature", V: []int{3, 4, 24, 8}}, {Kind: "KeySignature", V: []int{-3, 1}},
			{Kind: "SequencerSpecificEvent", M: []byte{0x41}, D: []byte{1, 2}}, {Kind: "NoteOn", Ch: 1, V: []int{61, 64}}, {Kind: "NoteOff", Ch: 1, V: []int{61, 32}},
			{Kind: "PolyphonicPressure", Ch: 2, V: []int{9}}, {Kind: "Controller", Ch: 3, V: []int{7, 100}}, {Kind: "ProgramChange", Ch: 4, V: []int{12}},
			{Kind: "ChannelPressure", Ch: 5, V: []int{13}}, {Kind: "PitchBend", Ch: 6, V: []int{8192}},
			{Kind: "SysExMessage", M: []byte{0x41}, D: []byte{1, 2, 3}, End: true}, {Kind: "SysExEscape", D: []byte{0xf3, 0x01}},
		}
		for _, k := range textKinds {
			list = append(list, Ev{Kind: k, D: []byte("Some words for " + k)})
		}
		list = append(list, Ev{Kind: "EndOfTrack"})
		f := File{Format: 1, Division: 96, Tracks: [][]Ev{list, list}}
		for _, k := range kinds {
			for style := 0; style <= 5; style++ {
				for n := 0; n < 4; n++ {
					yield(TemplateCase{TextCase: TextCase{Case: Case{F: f}}, Kinds: []string{k}, Prefix: []string{"", ">>"}[n%2], Width: []int{30, 3}[n/2], Length: []int{3, 20}[n/2], Styles: []int{style}, Twice: n == 1})
				}
			}
		}
		for style := 0; style <= 5; style++ {
			yield(TemplateCase{TextCase: TextCase{Case: Case{F: f}}, Kinds: kinds, Width: 10, Length: 10, Styles: []int{style}})
		}
	}, checkTemplates)
}
