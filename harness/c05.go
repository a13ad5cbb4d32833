package harness

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/transcriptaze/midiasm/ops/assemble"
	"pgregory.net/rapid"
)

// C05: a source assembles to exactly the events it describes.

type SourceCase struct {
	F      File
	L      Layout
	C4     bool
	Indent bool
}

func (c SourceCase) String() string { return fmt.Sprintf("C4:%v %v\nlayout:%+v", c.C4, c.F, c.L) }

func classifyFile(f File, o *Obs) {
	o.Nontrivial(f.kinds() >= 3)
	o.Label(f.events() > 20, "more than 20 events")
	o.Label(len(f.Tracks) > 1, "several tracks")
	o.Label(f.has("SysExContinuation"), "multi-packet SysEx")
	o.Label(f.Division > 0x7fff, "SMPTE division")
}

func checkTextSource(c SourceCase, o *Obs) error {
	classifyFile(c.F, o)
	o.Label(c.L.CRLF, "CRLF")
	o.Label(!c.L.Hex, "no hex column")
	setMiddleC(c.C4)
	defer setMiddleC(false)
	src := joinLines(textSource(c.F, c.L, c.C4), c.L)
	b, err := assemble.NewTextAssembler().Assemble(strings.NewReader(src))
	if err != nil {
		return fmt.Errorf("valid source rejected: %v\n%s", err, clip(src, 4000))
	}
	if err := same("assembled file", c.F, b); err != nil {
		return fmt.Errorf("%v\n%s", err, clip(src, 4000))
	}
	return nil
}

func checkJSONSource(c SourceCase, o *Obs) error {
	classifyFile(c.F, o)
	setMiddleC(c.C4)
	defer setMiddleC(false)
	src := jsonSource(c.F, c.Indent)
	b, err := assemble.NewJSONAssembler().Assemble(bytes.NewReader(src))
	if err != nil {
		return fmt.Errorf("valid source rejected: %v\n%s", err, clip(string(src), 4000))
	}
	if err := same("assembled file", c.F, b); err != nil {
		return fmt.Errorf("%v\n%s", err, clip(string(src), 4000))
	}
	return nil
}

func init() {
	property("C05", "text", 48000, 250000, func(t *rapid.T) SourceCase {
		o := textOpts()
		o.ManyTracks = false
		f := genFile(t, o)
		return SourceCase{F: f, L: genLayout(t), C4: rapid.Bool().Draw(t, "C4")}
	}, checkTextSource)
	property("C05", "json", 80000, 500000, func(t *rapid.T) SourceCase {
		return SourceCase{F: genFile(t, jsonOpts()), Indent: rapid.Bool().Draw(t, "indent"), C4: rapid.Bool().Draw(t, "C4")}
	}, checkJSONSource)
	sweep := func(tier string, yield func(SourceCase)) {
		sweepFiles(func(f File) {
			for k := 0; k < 3; k++ { // every spelling of every note
				yield(SourceCase{F: f, L: Layout{Spell: []int{k}}, C4: k == 1})
			}
		})
	}
	enumeration("C05", "text-sweep", sweep, checkTextSource)
	enumeration("C05", "json-sweep", sweep, checkJSONSource)
}
