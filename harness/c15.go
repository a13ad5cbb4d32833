package harness

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/transcriptaze/midiasm/commands"
	"pgregory.net/rapid"
)

// ---- running a command in this process ---------------------------------------------------------------

type Ran struct {
	Out, Err string // stdout, stderr
	Error    error
}

func commandOf(name string) commands.Command {
	switch name {
	case "disassemble":
		return &commands.Disassemble
	case "assemble":
		return &commands.Assemble
	case "notes":
		return &commands.Notes
	case "click":
		return &commands.Click
	case "export":
		return &commands.Export
	case "transpose":
		return &commands.Transpose
	case "tsv":
		return &commands.TSV
	}
	panic("no such command " + name)
}

func scratchDir() string {
	dir, err := os.MkdirTemp(getenv("VP_SCRATCH", os.TempDir()), "case-")
	if err != nil {
		panic(err)
	}
	return dir
}

// runCommand runs a command as main does, with stdout and stderr sent to files.
func runCommand(name string, args ...string) Ran {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	capture := func(name string) *os.File {
		f, err := os.Create(filepath.Join(dir, name))
		if err != nil {
			panic(err)
		}
		return f
	}
	stdout, stderr := os.Stdout, os.Stderr
	o, e := capture("stdout"), capture("stderr")
	os.Stdout, os.Stderr = o, e
	defer func() {
		os.Stdout, os.Stderr = stdout, stderr
		o.Close()
		e.Close()
	}()
	flags := flag.NewFlagSet("midiasm", flag.ContinueOnError)
	flags.SetOutput(io.Discard)
	c := commandOf(name)
	flags = c.Flagset(flags)
	r := Ran{}
	if r.Error = flags.Parse(args); r.Error == nil {
		r.Error = c.Execute(flags)
	}
	read := func(f *os.File) string {
		b, err := os.ReadFile(f.Name())
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	r.Out, r.Err = read(o), read(e)
	return r
}

// ---- C15: TSV ----------------------------------------------------------------------------------------

type TSVCase struct {
	TextCase
	Delimiter string
	Tabular   bool
}

func (c TSVCase) String() string {
	return fmt.Sprintf("delimiter:%q tabular:%v %v", c.Delimiter, c.Tabular, c.TextCase)
}

// row is the expected row of an event.
func row(e Ev, tick uint64, x Context) []string {
	w := &writer{}
	channel, note, velocity, details := "", "", "", ""
	if _, ok := channelStatus[e.Kind]; ok {
		channel = fmt.Sprint(e.Ch)
	}
	if isText(e.Kind) {
		details = string(e.D)
	}
	switch e.Kind {
	case "SequenceNumber", "MIDIChannelPrefix", "MIDIPort", "Tempo", "PolyphonicPressure", "ChannelPressure", "PitchBend":
		details = fmt.Sprint(e.V[0])
	case "SMPTEOffset":
		details = fmt.Sprintf("offset %02d:%02d:%02d  frame rate %d:%d:%d", e.V[0], e.V[1], e.V[2], e.V[3], e.V[4], e.V[5])
	case "KeySignature":
		details = keyName(e.V[0], e.V[1])
	case "TimeSignature":
		details = fmt.Sprintf("%d/%d, %d ticks/click, %d 32nds/quarter", e.V[0], e.V[1], e.V[2], e.V[3])
	case "SequencerSpecificEvent":
		details = fmt.Sprintf("%s [%s]", makerOf(e.M).Name, w.hex(e.D))
	case "NoteOn", "NoteOff":
		note, velocity, details = fmt.Sprint(e.V[0]), fmt.Sprint(e.V[1]), x.Name
	case "Controller":
		details = fmt.Sprintf("%d:%s, %d", e.V[0], controllerNames[e.V[0]], e.V[1])
	case "ProgramChange":
		details = fmt.Sprintf("%d, %d", x.Bank, e.V[0])
	case "SysExMessage":
		m := makerOf(e.M)
		details = fmt.Sprintf("%v:%s:%s, %s", e.M, m.Region, m.Name, w.hex(e.D))
	case "SysExContinuation", "SysExEscape":
		details = w.hex(e.D)
	}
	return []string{fmt.Sprint(tick), fmt.Sprint(e.Delta), e.Kind, channel, note, velocity, details}
}

var tsvHeader = []string{"Tick", "Delta", "Tag", "Channel", "Note", "Velocity", "Details"}

// table is the expected table: the tracks side by side, a row for each event.
func table(f File, c4 bool) [][]string {
	rows := 0
	for _, t := range f.Tracks {
		rows = max(rows, len(t))
	}
	list := [][]string{{}}
	for range f.Tracks {
		list[0] = append(list[0], tsvHeader...)
	}
	for j := 0; j < rows; j++ {
		list = append(list, make([]string, 7*len(f.Tracks)))
	}
	for i, t := range f.Tracks {
		tick := uint64(0)
		for j, x := range contexts(t, c4) {
			tick += uint64(t[j].Delta)
			copy(list[j+1][7*i:], row(t[j], tick, x))
		}
	}
	return list
}

// parseSeparated reads delimiter separated values: fields may be quoted, with "" for a quote.
func parseSeparated(s string, delimiter rune) ([][]string, error) {
	list := [][]string{}
	record := []string{}
	d := string(delimiter)
	for s != "" {
		field := ""
		if strings.HasPrefix(s, `"`) {
			s = s[1:]
			var quoted strings.Builder
			for {
				k := strings.Index(s, `"`)
				if k < 0 {
					return nil, errors.New("unterminated quote")
				}
				quoted.WriteString(s[:k])
				s = s[k+1:]
				if !strings.HasPrefix(s, `"`) {
					break
				}
				quoted.WriteByte('"')
				s = s[1:]
			}
			field = quoted.String()
			if s != "" && !strings.HasPrefix(s, d) && !strings.HasPrefix(s, "\n") {
				return nil, fmt.Errorf("stray text after a quoted field: %q", clip(s, 50))
			}
		} else {
			k := strings.Index(s, "\n")
			if k < 0 {
				k = len(s)
			}
			if n := strings.Index(s[:k], d); n >= 0 {
				k = n
			}
			field, s = s[:k], s[k:]
			if strings.Contains(field, `"`) {
				return nil, fmt.Errorf("stray quote in %q", field)
			}
		}
		record = append(record, field)
		if strings.HasPrefix(s, d) {
			s = s[len(d):]
			if s == "" {
				record = append(record, "")
			}
			continue
		}
		s = strings.TrimPrefix(s, "\n")
		list, record = append(list, record), []string{}
	}
	if len(record) > 0 {
		list = append(list, record)
	}
	return list, nil
}

// sameField allows for the controllers that have no name, and for spaces at the end of a name.
func sameField(tag, want, got string) bool {
	if want == got {
		return true
	}
	if tag != "Controller" && tag != "SysExMessage" && tag != "SequencerSpecificEvent" {
		return false
	}
	squash := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	if squash(strings.ReplaceAll(want, " ,", ",")) == squash(strings.ReplaceAll(got, " ,", ",")) || squash(strings.ReplaceAll(want, " [", "[")) == squash(strings.ReplaceAll(got, " [", "[")) {
		return true
	}
	if k := strings.Index(want, ":, "); k > 0 && k <= 3 && strings.HasPrefix(got, want[:k+1]) && strings.HasSuffix(got, want[k+1:]) {
		return true
	}
	return false
}

func checkTSV(c TSVCase, o *Obs) error {
	c.classify(o)
	o.Label(c.Tabular, "fixed width")
	setMiddleC(c.C4)
	defer setMiddleC(false)
	dir := scratchDir()
	defer os.RemoveAll(dir)
	b, _ := c.E.encode(c.F)
	in, out := filepath.Join(dir, "in.mid"), filepath.Join(dir, "out.tsv")
	if err := os.WriteFile(in, b, 0600); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	args := []string{"--out", out}
	if c.Tabular {
		args = append(args, "--tabular")
	}
	if c.Delimiter != "" {
		args = append(args, "--delimiter", c.Delimiter)
	}
	r := runCommand("tsv", append(args, in)...)
	if r.Error != nil {
		return fmt.Errorf("error: %v", r.Error)
	}
	text, err := os.ReadFile(out)
	if err != nil {
		return err
	}
	want := table(c.F, c.C4)
	if c.Tabular {
		if screen := runCommand("tsv", in); screen.Error != nil || screen.Out != string(text) {
			return fmt.Errorf("stdout and --tabular differ: %v\n%s\n----\n%s", screen.Error, clip(screen.Out, 2000), clip(string(text), 2000))
		}
		return compareTable(want, string(text))
	}
	delimiter := '\t'
	if c.Delimiter != "" && c.Delimiter != `\t` {
		delimiter = []rune(c.Delimiter)[0]
	}
	got, err := parseSeparated(string(text), delimiter)
	if err != nil {
		return fmt.Errorf("unreadable: %v\n%s", err, clip(string(text), 2000))
	}
	if len(got) > 0 && len(got) == len(want)+1 { // the header on its own comes first
		if strings.Join(got[0], "|") != strings.Join(tsvHeader, "|") {
			return fmt.Errorf("expected a header row, got %q", got[0])
		}
		got = got[1:]
	}
	if len(c.F.Tracks) == 0 {
		return nil
	}
	if len(got) != len(want) {
		return fmt.Errorf("expected %d rows, got %d\n%s", len(want), len(got), clip(string(text), 2000))
	}
	for i := range want {
		if len(want[i]) != len(got[i]) {
			return fmt.Errorf("row %d: expected %d columns, got %d: %q", i, len(want[i]), len(got[i]), got[i])
		}
		for k := range want[i] {
			if !sameField(want[i][k/7*7+2], want[i][k], got[i][k]) {
				return fmt.Errorf("row %d, column %d (%s of track %d): expected %q, got %q", i, k, tsvHeader[k%7], k/7, clip(want[i][k], 500), clip(got[i][k], 500))
			}
		}
	}
	return nil
}

// compareTable checks columns of a fixed width: each column starts at the same place in every row.
func compareTable(want [][]string, text string) error {
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if len(want[0]) == 0 {
		return nil
	}
	if len(lines) != len(want) {
		return fmt.Errorf("expected %d lines, got %d\n%s", len(want), len(lines), clip(text, 2000))
	}
	at := []int{0} // where the columns start: the header fills its columns in
	p := 0
	for k, h := range want[0] {
		if k == 0 {
			if !strings.HasPrefix(lines[0], h) {
				return fmt.Errorf("expected column %s: %q", h, lines[0])
			}
			p = len(h)
			continue
		}
		n := strings.Index(lines[0][p:], h)
		if n < 1 || strings.TrimSpace(lines[0][p:p+n]) != "" {
			return fmt.Errorf("expected column %s after %q", h, clip(lines[0][:p], 300))
		}
		at = append(at, p+n)
		p += n + len(h)
	}
	for i, line := range lines {
		l := []rune(line)
		for k := range want[i] {
			end := len(l)
			if k+1 < len(at) {
				end = at[k+1]
			}
			if end > len(l) || at[k] > end {
				return fmt.Errorf("line %d is short: %q", i, line)
			}
			got := strings.TrimRight(string(l[at[k]:end]), " ")
			if !sameField(want[i][k/7*7+2], strings.TrimRight(string([]rune(want[i][k])), " "), got) {
				return fmt.Errorf("line %d, column %d (%s of track %d): expected %q, got %q", i, k, tsvHeader[k%7], k/7, clip(want[i][k], 500), clip(got, 500))
			}
			if k+1 < len(at) && len([]rune(got)) == end-at[k] && got != "" {
				return fmt.Errorf("line %d: no space after column %d: %q", i, k, clip(line, 500))
			}
		}
	}
	return nil
}

// plainText keeps fixed width tables readable: no line breaks and other control characters.
func plainText(f File) {
	for _, t := range f.Tracks {
		for j := range t {
			if isText(t[j].Kind) {
				for k, b := range t[j].D {
					if b < 0x20 || b == 0x7f {
						t[j].D[k] = 'a' + b%26
					}
				}
				t[j].D = []byte(strings.TrimSpace(string(t[j].D)))
			}
		}
	}
}

func init() {
	property("C15", "tsv", 40000, 800000, func(t *rapid.T) TSVCase {
		o := binaryOpts()
		c := TSVCase{Tabular: chance(t, "tabular", 1, 4)}
		if !c.Tabular && chance(t, "delimiter?", 1, 2) {
			c.Delimiter = pick(t, "delimiter", ",", ";", "|", `\t`, ":", " ", "→", "x", "5", "/", "||", ", ", `\`, `\n`, "\t", "t", "\v", "#", "'")
		}
		o.MaxTracks = 4
		if c.Tabular {
			o.Only = []string{"NoteOn", "NoteOff", "Tempo", "TimeSignature", "SMPTEOffset", "ProgramChange", "PitchBend", "Text", "Lyric", "Marker", "TrackName", "SysExEscape", "SysExMessage", "SequencerSpecificEvent", "PolyphonicPressure", "SequenceNumber", "MIDIPort", "Controller"}
			o.Long = false
		}
		c.TextCase = genTextCase(t, o)
		if c.Tabular {
			plainText(c.F)
		}
		return c
	}, checkTSV)
	enumeration("C15", "sweep", func(tier string, yield func(TSVCase)) {
		sweepTextCases(tier, func(c TextCase) { yield(TSVCase{TextCase: c}) })
	}, checkTSV)
}
