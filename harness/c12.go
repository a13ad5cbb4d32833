package harness

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"sync"

	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/assemble"
	"github.com/transcriptaze/midiasm/ops/click"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/export"
	"github.com/transcriptaze/midiasm/ops/notes"
	"github.com/transcriptaze/midiasm/ops/transpose"
	"pgregory.net/rapid"
)

// C12: the result of an operation depends on its input alone: not on what ran before it, on what runs at the same time,
// or on what the object it is called on was used for.

type Input struct {
	Source string // "midi", "text" or "json"
	B      []byte
	Note   string
}

type Step struct {
	In int
	Op int
}

type HistoryCase struct {
	C4     bool
	Inputs []Input
	Steps  []Step
}

func (c HistoryCase) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "C4:%v", c.C4)
	for i, x := range c.Inputs {
		if x.Source == "midi" {
			fmt.Fprintf(&b, "\n input %d: (%s) % X", i, x.Note, x.B)
		} else {
			fmt.Fprintf(&b, "\n input %d: (%s) %s", i, x.Note, clip(string(x.B), 1500))
		}
	}
	fmt.Fprintf(&b, "\n steps:")
	for _, s := range c.Steps {
		fmt.Fprintf(&b, " %s(%d)", operationNames[s.Op], s.In)
	}
	return b.String()
}

// Tools are the objects that hold state between calls, if there is any.
type Tools struct {
	keep    bool     // whether to keep what was returned
	kept    [][]byte // what was returned, which is the caller's from then on
	was     []string // and what it was then
	decoder midifile.Decoder
	dis     *disassemble.Disassemble
	exp     *export.Export
	text    assemble.Assembler
	json    assemble.Assembler
	trans   *transpose.Transpose
}

func newTools() *Tools {
	d, err := disassemble.NewDisassemble()
	if err != nil {
		panic(err)
	}
	x, err := export.NewExport()
	if err != nil {
		panic(err)
	}
	return &Tools{decoder: midifile.NewDecoder(), dis: d, exp: x, text: assemble.NewTextAssembler(), json: assemble.NewJSONAssembler(), trans: &transpose.Transpose{}}
}

var operationNames = []string{"decode", "encode", "disassemble", "export", "notes", "notes-json", "click", "transpose", "validate", "tracks"}

// returned is the result of an operation as text, and is kept if that was asked for.
func (k *Tools) returned(b []byte) string {
	s := fmt.Sprintf("% X", b)
	if k.keep {
		k.kept, k.was = append(k.kept, b), append(k.was, s)
	}
	return s
}

func verdict(out string, err error) string {
	if err != nil {
		return "error"
	}
	return out
}

// perform runs an operation on an input and returns the result as text.
func perform(k *Tools, x Input, op int) (result string) {
	defer func() {
		if r := recover(); r != nil {
			result = fmt.Sprintf("panic: %v", r)
		}
	}()
	switch x.Source {
	case "text":
		b, err := k.text.Assemble(bytes.NewReader(x.B))
		return verdict(k.returned(b), err)
	case "json":
		b, err := k.json.Assemble(bytes.NewReader(x.B))
		return verdict(k.returned(b), err)
	}
	smf, err := k.decoder.Decode(bytes.NewReader(x.B))
	if err != nil {
		return verdict("", err)
	}
	return performOn(k, smf, op)
}

func performOn(k *Tools, smf *midi.SMF, op int) string {
	var b bytes.Buffer
	switch operationNames[op] {
	case "decode":
		f, infos, err := adapt(smf)
		return verdict(fmt.Sprintf("%v %v", f, infos), err)
	case "encode":
		err := midifile.NewEncoder(&b).Encode(*smf)
		return verdict(fmt.Sprintf("% X", b.Bytes()), err)
	case "disassemble":
		err := k.dis.Print(smf, "document", &b)
		return verdict(b.String(), err)
	case "export":
		err := k.exp.Export(smf, &b)
		return verdict(b.String(), err)
	case "notes":
		p := notes.Notes{Writer: &b}
		err := p.Execute(smf)
		return verdict(b.String(), err)
	case "notes-json":
		p := notes.Notes{Writer: &b, JSON: true, Transpose: 3}
		err := p.Execute(smf)
		return verdict(b.String(), err)
	case "click":
		p := click.ClickTrack{Writer: &b}
		err := p.Execute(smf)
		return verdict(b.String(), err)
	case "transpose":
		out, err := k.trans.Execute(smf, 5)
		return verdict(k.returned(out), err)
	case "validate":
		return fmt.Sprintf("%v", smf.Validate())
	case "tracks":
		for i := range smf.Tracks {
			if err := k.dis.Print(smf.Tracks[i], "MTrk", &b); err != nil {
				return verdict("", err)
			}
		}
		return b.String()
	}
	return ""
}

func checkHistory(c HistoryCase, o *Obs) error {
	setMiddleC(c.C4)
	defer setMiddleC(false)
	bad := 0
	for _, x := range c.Inputs {
		if x.Note != "valid" {
			bad++
		}
	}
	o.Nontrivial(len(c.Inputs) > 1 && len(c.Steps) > 2)
	o.Label(bad > 0, "history with malformed inputs")

	// the result of each operation on its own
	want := map[Step]string{}
	for _, s := range c.Steps {
		if _, ok := want[s]; !ok {
			want[s] = perform(newTools(), c.Inputs[s.In], s.Op)
			if strings.HasPrefix(want[s], "panic:") {
				return fmt.Errorf("%s(%d): %s", operationNames[s.Op], s.In, want[s])
			}
		}
	}
	compare := func(how string, s Step, got string) error {
		if got != want[s] {
			return fmt.Errorf("%s(input %d) %s gives a different result:\n%s\n---- alone:\n%s", operationNames[s.Op], s.In, how, clip(got, 1500), clip(want[s], 1500))
		}
		return nil
	}

	// in sequence, with the same objects throughout
	k := newTools()
	k.keep = true
	for i, s := range c.Steps {
		if err := compare(fmt.Sprintf("as step %d of the history", i), s, perform(k, c.Inputs[s.In], s.Op)); err != nil {
			return err
		}
	}

	// in sequence, each file decoded once only
	decoded := map[int]*midi.SMF{}
	for i, s := range c.Steps {
		x := c.Inputs[s.In]
		if x.Source != "midi" {
			continue
		}
		if _, ok := decoded[s.In]; !ok {
			smf, err := decode(x.B)
			if err != nil {
				continue
			}
			decoded[s.In] = smf
		}
		if err := compare(fmt.Sprintf("as step %d of the history on a file decoded once", i), s, performOn(k, decoded[s.In], s.Op)); err != nil {
			return err
		}
	}

	// what was returned stays as it is, and is the caller's to change
	for i, b := range k.kept {
		if got := fmt.Sprintf("% X", b); got != k.was[i] {
			return fmt.Errorf("bytes that were returned have changed since then: %s\n----\n%s", clip(k.was[i], 1500), clip(got, 1500))
		}
	}
	for in, smf := range decoded {
		f, infos, _ := adapt(smf)
		g, again, _ := adapt(must(decode(c.Inputs[in].B)))
		if d := diff(g, f); d != "" || !reflect.DeepEqual(infos, again) {
			return fmt.Errorf("the decoded input %d has changed since then %s", in, d)
		}
	}
	for _, b := range k.kept {
		for i := range b {
			b[i] ^= 0x5a
		}
	}
	k.keep = false
	for i, s := range c.Steps {
		if i < 2 {
			if err := compare("after the results of the history were overwritten", s, perform(k, c.Inputs[s.In], s.Op)); err != nil {
				return err
			}
		}
	}
	return nil
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// checkConcurrent runs the steps at the same time, each with its own objects and its own decoded file.
func checkConcurrent(c HistoryCase, o *Obs) error {
	n := 1
	if os.Getenv("VP_REPLAY") != "" { // the schedule is not part of the case
		n = 100
	}
	for range n {
		if err := runConcurrently(c, o); err != nil {
			return err
		}
	}
	return nil
}

func runConcurrently(c HistoryCase, o *Obs) error {
	setMiddleC(c.C4)
	defer setMiddleC(false)
	o.Nontrivial(len(c.Steps) > 2)
	want := map[Step]string{}
	for _, s := range c.Steps {
		if _, ok := want[s]; !ok {
			want[s] = perform(newTools(), c.Inputs[s.In], s.Op)
		}
	}
	shared := map[int]*midi.SMF{} // read only operations on a shared file
	for i, x := range c.Inputs {
		if x.Source == "midi" {
			if smf, err := decode(x.B); err == nil {
				shared[i] = smf
			}
		}
	}
	var wg sync.WaitGroup
	results := make([]string, 2*len(c.Steps))
	start := make(chan bool)
	k := newTools()
	for i, s := range c.Steps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			results[i] = perform(newTools(), c.Inputs[s.In], s.Op)
		}()
		if smf, ok := shared[s.In]; ok {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				results[len(c.Steps)+i] = performOn(k, smf, s.Op)
			}()
		} else {
			results[len(c.Steps)+i] = want[s]
		}
	}
	close(start)
	wg.Wait()
	for i, got := range results {
		s := c.Steps[i%len(c.Steps)]
		if got != want[s] {
			return fmt.Errorf("%s(input %d) gives a different result when run concurrently (shared file: %v):\n%s\n---- alone:\n%s", operationNames[s.Op], s.In, i >= len(c.Steps), clip(got, 1500), clip(want[s], 1500))
		}
	}
	return nil
}

// The events of a track do not depend on the other tracks.

func checkTracks(c TextCase, o *Obs) error {
	setMiddleC(c.C4)
	defer setMiddleC(false)
	c.classify(o)
	o.Nontrivial(len(c.F.Tracks) > 1)
	b, _ := c.E.encode(c.F)
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	_, infos, err := adapt(smf)
	if err != nil {
		return err
	}
	for i, t := range c.F.Tracks {
		// the padding is used in rotation: a track on its own is encoded without it
		f := File{Format: c.F.Format, Division: c.F.Division, Tracks: [][]Ev{t}}
		b, _ := Enc{Run: c.E.Run}.encode(f)
		one, err := decode(b)
		if err != nil {
			return fmt.Errorf("track %d on its own rejected: %v", i, err)
		}
		_, alone, err := adapt(one)
		if err != nil {
			return err
		}
		for j := range infos[i] {
			x, y := infos[i][j], alone[0][j]
			x.Raw, y.Raw = nil, nil
			if !reflect.DeepEqual(x, y) {
				return fmt.Errorf("track %d, event %d: %+v in the file, %+v as the only track", i, j, x, y)
			}
		}
	}
	return nil
}

func genInput(t *rapid.T) Input {
	switch rapid.IntRange(0, 9).Draw(t, "input") {
	case 0:
		b := genMangled(t)
		return Input{"midi", b.B, b.Note}
	case 1:
		s := genSource(t)
		if s.JSON {
			return Input{"json", s.S, s.Note}
		}
		return Input{"text", s.S, s.Note}
	case 2, 3:
		o := textOpts()
		o.Long, o.ManyTracks, o.MaxTracks, o.MaxEvents = false, false, 3, 8
		l := genLayout(t)
		return Input{"text", []byte(joinLines(textSource(genFile(t, o), l, false), l)), "valid"}
	case 4:
		o := jsonOpts()
		o.Long, o.ManyTracks, o.MaxTracks, o.MaxEvents = false, false, 3, 8
		return Input{"json", jsonSource(genFile(t, o), false), "valid"}
	case 5, 6:
		b, _ := Enc{}.encode(genScore(t))
		return Input{"midi", b, "valid"}
	default:
		o := binaryOpts()
		o.Long, o.ManyTracks, o.MaxTracks, o.MaxEvents = false, false, 3, 10
		c := genCase(t, o)
		b, _ := c.E.encode(c.F)
		return Input{"midi", b, "valid"}
	}
}

func genHistory(t *rapid.T, steps int) HistoryCase {
	c := HistoryCase{C4: chance(t, "C4", 1, 3)}
	n := rapid.IntRange(1, 3).Draw(t, "inputs")
	for i := 0; i < n; i++ {
		c.Inputs = append(c.Inputs, genInput(t))
	}
	n = rapid.IntRange(2, steps).Draw(t, "steps")
	for i := 0; i < n; i++ {
		s := Step{In: rapid.IntRange(0, len(c.Inputs)-1).Draw(t, "in"), Op: rapid.IntRange(0, len(operationNames)-1).Draw(t, "op")}
		if c.Inputs[s.In].Source != "midi" {
			s.Op = 0
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

var _ io.Writer = &bytes.Buffer{}

func init() {
	property("C12", "history", 4000, 80000, func(t *rapid.T) HistoryCase { return genHistory(t, 8) }, checkHistory)
	property("C12", "tracks", 16000, 300000, func(t *rapid.T) TextCase {
		o := binaryOpts()
		o.Long, o.Formats, o.MinTracks = false, []int{1, 2}, 1
		if chance(t, "stateful-events", 2, 3) {
			o.Only = []string{"NoteOn", "NoteOff", "KeySignature", "ProgramChange", "Controller", "SysExMessage", "SysExEscape", "Controller"}
		}
		return genTextCase(t, o)
	}, checkTracks)
	property("C12", "concurrent", 1600, 40000, func(t *rapid.T) HistoryCase { return genHistory(t, 6) }, checkConcurrent)
}
