package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"

	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/lib"
	"github.com/transcriptaze/midiasm/ops/click"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/notes"
	"pgregory.net/rapid"
)

// C13: input that arrives in pieces is read in full; a fault of the input or the output is reported.

var errFault = errors.New("injected fault")

// slowReader returns the data in pieces, and then EOF or a fault.
type slowReader struct {
	b      []byte
	sizes  []int
	i      int
	fault  int  // position of the fault, or -1
	with   bool // the last piece and the error are returned together
	err    error
	once   bool // the error is returned once, and EOF from then on
	failed bool
}

func (r *slowReader) Read(p []byte) (int, error) {
	limit, err := len(r.b), io.EOF
	if r.fault >= 0 {
		limit, err = r.fault, r.err
	}
	if r.failed && r.once {
		return 0, io.EOF
	}
	n := len(p)
	if len(r.sizes) > 0 {
		if k := r.sizes[r.i%len(r.sizes)]; k < n {
			n = k
		}
		r.i++
	}
	if n > limit {
		n = limit
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if r.fault >= 0 {
		r.fault -= n
	}
	if n == limit && (r.with || limit == 0) {
		r.failed = true
		return n, err
	}
	return n, nil
}

type ReadCase struct {
	Input Input
	C4    bool
	Sizes []int
	With  bool
	Fault int  // -1 for none
	EOF   bool // the fault is an unexpected EOF
	Once  bool // the fault is reported once and is then followed by EOF
}

func (c ReadCase) String() string {
	return fmt.Sprintf("pieces:%v error with data:%v fault at:%d once:%v (%s %s) % X", c.Sizes, c.With, c.Fault, c.Once, c.Input.Source, c.Input.Note, c.Input.B)
}

func readInput(r io.Reader, source string) (string, error) {
	switch source {
	case "templates":
		d, err := disassemble.NewDisassemble()
		if err != nil {
			return "", err
		}
		if err := d.LoadTemplates(r); err != nil {
			return "", err
		}
		smf, err := decode(makersFile([]byte{0x41}))
		if err != nil {
			return "", err
		}
		var b bytes.Buffer
		err = d.Print(smf, "document", &b)
		return b.String(), err
	case "manufacturers":
		list, err := lib.LoadManufacturers(r)
		return fmt.Sprintf("%v", list), err
	case "text", "json":
		b, err := assembler(source == "json").Assemble(r)
		return fmt.Sprintf("% X", b), err
	}
	smf, err := decodeFrom(r)
	if err != nil {
		return "", err
	}
	f, infos, err := adapt(smf)
	return fmt.Sprintf("%v %v", f, infos), err
}

func checkReader(c ReadCase, o *Obs) error {
	setMiddleC(c.C4)
	defer setMiddleC(false)
	want, e1 := readInput(bytes.NewReader(c.Input.B), c.Input.Source)
	o.Nontrivial(len(c.Input.B) > 20)
	o.Label(c.Fault >= 0, "read fault")
	o.Label(c.Fault >= 0 && c.Fault == len(c.Input.B), "read fault after the last byte")
	o.Label(true, "source "+c.Input.Source)
	o.Label(c.Fault < 0 && e1 == nil, "valid input in pieces")
	r := &slowReader{b: c.Input.B, sizes: c.Sizes, with: c.With, fault: c.Fault, err: errFault, once: c.Once}
	if c.EOF {
		r.err = io.ErrUnexpectedEOF
	}
	got, e2 := readInput(r, c.Input.Source)
	if c.Fault >= 0 {
		if e2 == nil {
			return fmt.Errorf("fault of the input after %d of %d bytes not reported", c.Fault, len(c.Input.B))
		}
		return nil
	}
	if (e1 == nil) != (e2 == nil) {
		return fmt.Errorf("in one piece: %v; in pieces: %v", e1, e2)
	}
	if e1 == nil && want != got {
		return fmt.Errorf("input in pieces is read differently:\n%s\n----\n%s", clip(want, 2000), clip(got, 2000))
	}
	return nil
}

// faultyWriter accepts a number of bytes and then fails.
type faultyWriter struct {
	b      bytes.Buffer
	limit  int
	failed bool
	once   bool // only one write fails
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	room := w.limit - w.b.Len()
	if len(p) <= room || w.failed && w.once {
		return w.b.Write(p)
	}
	w.failed = true
	w.b.Write(p[:room])
	return room, errFault
}

type WriteCase struct {
	Case
	Limit int // accepted bytes, as a fraction (of 1000) of the whole output
	Edge  int // 1: one byte short; 2: nothing accepted
	Once  bool
}

func (c WriteCase) String() string {
	return fmt.Sprintf("limit:%d/1000 edge:%d once:%v %v", c.Limit, c.Edge, c.Once, c.Case)
}

func writeWith(smf *midi.SMF, op string, w io.Writer) error {
	switch op {
	case "encode":
		return midifile.NewEncoder(w).Encode(*smf)
	case "disassemble", "export", "notes", "notes-json", "click", "MThd", "MTrk":
		return printWith(smf, op, w)
	}
	return nil
}

var writeOps = []string{"encode", "disassemble", "export", "notes", "notes-json", "click", "MThd", "MTrk"}

func checkWriter(c WriteCase, o *Obs) error {
	b, _ := c.E.encode(c.F)
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	for _, op := range writeOps {
		whole := &faultyWriter{limit: 1 << 30}
		if err := writeWith(smf, op, whole); err != nil {
			o.Label(true, op+": refused")
			continue
		}
		n := whole.b.Len()
		if n == 0 {
			continue
		}
		limit := n * c.Limit / 1000
		if c.Edge == 1 || limit >= n {
			limit = n - 1
		} else if c.Edge == 2 {
			limit = 0
		}
		o.Nontrivial(true)
		o.Label(true, op+": write fault")
		w := &faultyWriter{limit: limit, once: c.Once}
		err := writeWith(smf, op, w)
		if w.failed && err == nil {
			return fmt.Errorf("%s: fault of the output after %d of %d bytes not reported", op, limit, n)
		}
		if !w.failed {
			return fmt.Errorf("%s: output of %d bytes written as %d", op, n, w.b.Len())
		}
		if !c.Once && !bytes.HasPrefix(whole.b.Bytes(), w.b.Bytes()) {
			return fmt.Errorf("%s: what was written before the fault is not a prefix of the whole", op)
		}
	}
	return nil
}

// genReadable is an input of any kind, the configuration files included.
func genReadable(t *rapid.T) Input {
	switch rapid.IntRange(0, 15).Draw(t, "readable") {
	case 14:
		c := genMakers(t)
		if !c.valid(0) {
			return Input{Source: "manufacturers", Note: "invalid", B: c.document(0)}
		}
		return Input{Source: "manufacturers", Note: "valid", B: c.document(0)}
	case 15:
		doc, _ := json.Marshal(map[string]any{"templates": map[string]string{"sysex": pick(t, "template", "S {{.Data}}", "", "{{pad 9 .Tag}}|"), "endoftrack": pick(t, "end", "END", "{{.Tag}}", "")}})
		return Input{Source: "templates", Note: "valid", B: doc}
	}
	return genInput(t)
}

func genReadCase(t *rapid.T, fault bool) ReadCase {
	c := ReadCase{Input: genReadable(t), Fault: -1, With: rapid.Bool().Draw(t, "with")}
	if rapid.Bool().Draw(t, "pieces") {
		c.Sizes = rapid.SliceOfN(rapid.IntRange(0, 9), 1, 5).Draw(t, "sizes")
		c.Sizes[0] = max(c.Sizes[0], 1)
	} else {
		c.Sizes = []int{pick(t, "size", 1, 2, 3, 7, 64, 512, 4095, 4096, 4097)}
	}
	if fault {
		for c.Input.Note != "valid" || len(c.Input.B) == 0 {
			c.Input = genReadable(t)
		}
		c.Fault = rapid.IntRange(0, len(c.Input.B)-1).Draw(t, "fault")
		if chance(t, "late-fault", 1, 4) {
			c.Fault = len(c.Input.B) - 1
		} else if (c.Input.Source == "midi" || c.Input.Source == "text") && chance(t, "end-fault", 1, 8) { // there may be no reading past the end of a JSON document
			c.Fault = len(c.Input.B)
		}
		c.Once = !c.With && rapid.Bool().Draw(t, "once") // io.ReadFull drops an error that comes with the data it needs
		c.EOF = c.Input.Source == "midi" && chance(t, "eof", 1, 4)
	}
	return c
}

func init() {
	property("C13", "pieces", 30000, 600000, func(t *rapid.T) ReadCase { return genReadCase(t, false) }, checkReader)
	property("C13", "read-fault", 30000, 600000, func(t *rapid.T) ReadCase { return genReadCase(t, true) }, checkReader)
	property("C13", "write-fault", 3000, 60000, func(t *rapid.T) WriteCase {
		c := WriteCase{Limit: rapid.IntRange(0, 999).Draw(t, "limit"), Edge: rapid.IntRange(0, 3).Draw(t, "edge"), Once: rapid.Bool().Draw(t, "once")}
		if rapid.Bool().Draw(t, "score") {
			c.F = genScore(t)
		} else {
			o := binaryOpts()
			o.ManyTracks, o.MaxTracks, o.MaxEvents, o.MinTracks = false, 3, 10, 1
			c.Case = genCase(t, o)
		}
		return c
	}, checkWriter)
}

func printWith(smf *midi.SMF, op string, w io.Writer) error {
	k := newTools()
	switch op {
	case "disassemble":
		return k.dis.Print(smf, "document", w)
	case "MThd":
		return k.dis.Print(*smf.MThd, "MThd", w)
	case "MTrk":
		for i := range smf.Tracks {
			if err := k.dis.Print(smf.Tracks[i], "MTrk", w); err != nil {
				return err
			}
		}
		return nil
	case "export":
		return k.exp.Export(smf, w)
	case "click":
		p := click.ClickTrack{Writer: w}
		return p.Execute(smf)
	default:
		p := notes.Notes{Writer: w, JSON: op == "notes-json"}
		return p.Execute(smf)
	}
}
