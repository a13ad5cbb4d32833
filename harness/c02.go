package harness

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/context"
	"github.com/transcriptaze/midiasm/midi/lib"
	"github.com/transcriptaze/midiasm/ops/assemble"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/export"
	"pgregory.net/rapid"
)

// C02: encoding a decoded file reproduces it.

func checkEncode(c Case, o *Obs) error {
	c.classify(o)
	b, _ := c.E.encode(c.F)
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	b1, err := reencode(smf)
	if err != nil {
		return fmt.Errorf("decoded MIDI file cannot be encoded: %v", err)
	}
	if err := same("encoded file", c.F, b1); err != nil {
		return err
	}
	if b2, err := reencode(smf); err != nil || !bytes.Equal(b1, b2) {
		return fmt.Errorf("encoding the same file again gives a different result (%v): % X, % X", err, b1, b2)
	}
	if again, _, err := adapt(smf); err != nil || diff(c.F, again) != "" {
		return fmt.Errorf("encoding changed the decoded file: %v %s", err, diff(c.F, again))
	}
	smf2, err := decode(b1)
	if err != nil {
		return fmt.Errorf("encoded file cannot be decoded: %v", err)
	}
	f2, _, err := adapt(smf2)
	if err != nil {
		return err
	}
	if d := diff(c.F, f2); d != "" {
		return fmt.Errorf("decode(encode(decode)) differs: %s", d)
	}
	b3, err := reencode(smf2)
	if err != nil {
		return err
	}
	if !bytes.Equal(b1, b3) {
		return fmt.Errorf("encoding is not a fixed point: % X, then % X", b1, b3)
	}
	return nil
}

// same checks that bytes are a strictly valid MIDI file with the contents of the model.
func same(what string, want File, b []byte) error {
	got, err := refParseStrict(b)
	if err != nil {
		return fmt.Errorf("%s is not a valid MIDI file: %v\n%s", what, err, clip(fmt.Sprintf("% X", b), 2000))
	}
	if d := diff(want, got); d != "" {
		return fmt.Errorf("%s differs from the original: %s", what, d)
	}
	return nil
}

// ---- text --------------------------------------------------------------------------------------------

func setMiddleC(c4 bool) {
	if c4 {
		context.SetMiddleC(lib.C4)
	} else {
		context.SetMiddleC(lib.C3)
	}
}

func disassembleText(smf *midi.SMF) (string, error) {
	d, err := disassemble.NewDisassemble()
	if err != nil {
		return "", err
	}
	var s strings.Builder
	err = d.Print(smf, "document", &s)
	return s.String(), err
}

type TextCase struct {
	Case
	C4 bool
}

func (c TextCase) String() string { return fmt.Sprintf("C4:%v %v", c.C4, c.Case) }

// C03: a disassembly assembles to the same file.

func textOpts() Opts {
	return Opts{Text: Line, Manufacturer: genKnownManufacturer, Packets: true, SysExHigh: true, Long: true, ManyTracks: true}
}

func checkText(c TextCase, o *Obs) error {
	c.classify(o)
	o.Label(c.C4, "C4")
	setMiddleC(c.C4)
	defer setMiddleC(false)
	b, _ := c.E.encode(c.F)
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	text, err := disassembleText(smf)
	if err != nil {
		return fmt.Errorf("error disassembling: %v", err)
	}
	out, err := assemble.NewTextAssembler().Assemble(strings.NewReader(text))
	if err != nil {
		return fmt.Errorf("disassembly cannot be assembled: %v\n%s", err, clip(text, 4000))
	}
	if err := same("assembled file", c.F, out); err != nil {
		return fmt.Errorf("%v\n%s", err, clip(text, 4000))
	}
	smf2, err := decode(out)
	if err != nil {
		return fmt.Errorf("assembled file cannot be decoded: %v", err)
	}
	text2, err := disassembleText(smf2)
	if err != nil {
		return err
	}
	if a, b := stripHex(text), stripHex(text2); a != b && c.plainEncoding() {
		return fmt.Errorf("disassembly of the assembled file differs:\n%s\n----\n%s", clip(a, 3000), clip(b, 3000))
	}
	return nil
}

// plainEncoding is true if the file was written without running status, padding and alien chunks.
func (c Case) plainEncoding() bool { return len(c.E.Run) == 0 && len(c.E.Pad) == 0 }

// stripHex removes the hex column and the track lengths, which depend on the encoding.
func stripHex(text string) string {
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		r := []rune(l)
		if len(r) >= 42 {
			l = string(r[42:])
		}
		if strings.Contains(l, "MTrk") && !strings.Contains(l, "delta:") {
			l = strings.Split(l, " length:")[0]
		}
		lines[i] = l
	}
	return strings.Join(lines, "\n")
}

// ---- JSON --------------------------------------------------------------------------------------------

// C04: an export assembles to the same file.

func exportJSON(smf *midi.SMF) ([]byte, error) {
	x, err := export.NewExport()
	if err != nil {
		return nil, err
	}
	var b bytes.Buffer
	err = x.Export(smf, &b)
	return b.Bytes(), err
}

func jsonOpts() Opts {
	return Opts{Text: UTF8, Packets: true, SysExHigh: true, Long: true, ManyTracks: true}
}

func checkJSON(c TextCase, o *Obs) error {
	c.classify(o)
	o.Label(c.C4, "C4")
	setMiddleC(c.C4)
	defer setMiddleC(false)
	b, _ := c.E.encode(c.F)
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	text, err := exportJSON(smf)
	if err != nil {
		return fmt.Errorf("error exporting: %v", err)
	}
	out, err := assemble.NewJSONAssembler().Assemble(bytes.NewReader(text))
	if err != nil {
		return fmt.Errorf("export cannot be assembled: %v\n%s", err, clip(string(text), 4000))
	}
	if err := same("assembled file", c.F, out); err != nil {
		return fmt.Errorf("%v\n%s", err, clip(string(text), 4000))
	}
	smf2, err := decode(out)
	if err != nil {
		return fmt.Errorf("assembled file cannot be decoded: %v", err)
	}
	text2, err := exportJSON(smf2)
	if err != nil {
		return err
	}
	if !bytes.Equal(text, text2) {
		return fmt.Errorf("export of the assembled file differs:\n%s\n----\n%s", clip(string(text), 3000), clip(string(text2), 3000))
	}
	return nil
}

func genTextCase(t *rapid.T, o Opts) TextCase {
	return TextCase{Case: genCase(t, o), C4: rapid.Bool().Draw(t, "C4")}
}

// sweepEvents yields every value of the small event domains, one file per kind and value group.
func sweepFiles(yield func(File)) {
	one := func(list ...Ev) {
		yield(File{Format: 1, Division: 480, Tracks: [][]Ev{append(list, Ev{Kind: "EndOfTrack"})}})
	}
	for ch := 0; ch < 16; ch++ {
		for _, kind := range []string{"NoteOn", "NoteOff", "Controller"} {
			list := []Ev{}
			for v := 0; v < 128; v++ {
				list = append(list, Ev{Kind: kind, Ch: ch, V: []int{v, 127 - v}})
			}
			one(list...)
		}
		for _, kind := range []string{"ProgramChange", "PolyphonicPressure", "ChannelPressure"} {
			list := []Ev{}
			for v := 0; v < 128; v++ {
				list = append(list, Ev{Kind: kind, Ch: ch, V: []int{v}})
			}
			one(list...)
		}
	}
	for base := 0; base < 16384; base += 512 {
		list := []Ev{}
		for v := base; v < base+512; v++ {
			list = append(list, Ev{Kind: "PitchBend", Ch: base / 512 % 16, V: []int{v}})
		}
		one(list...)
	}
	for a := -7; a <= 7; a++ { // note names in every key
		for m := 0; m < 2; m++ {
			list := []Ev{{Kind: "KeySignature", V: []int{a, m}}}
			for n := 0; n < 128; n++ {
				list = append(list, Ev{Kind: "NoteOn", V: []int{n, 1}}, Ev{Kind: "NoteOff", Delta: 1, V: []int{n, 0}})
			}
			one(list...)
		}
	}
	for _, m := range makers {
		one(Ev{Kind: "SysExMessage", M: m.ID, D: []byte{1, 2, 3}, End: true}, Ev{Kind: "SequencerSpecificEvent", M: m.ID, D: []byte{4, 5}},
			Ev{Kind: "SysExMessage", M: m.ID, D: []byte{}, End: true}, Ev{Kind: "SequencerSpecificEvent", M: m.ID, D: []byte{}})
	}
	for d := 0; d < 8; d++ {
		list := []Ev{}
		for n := 0; n < 256; n++ {
			list = append(list, Ev{Kind: "TimeSignature", V: []int{n, 1 << d, 255 - n, n}})
		}
		one(list...)
	}
	for _, rate := range []int{24, 25, 29, 30} {
		list := []Ev{}
		for h := 0; h <= 24; h++ {
			list = append(list, Ev{Kind: "SMPTEOffset", V: []int{h, 59 - h, h * 2, rate, h % rate, 4 * h}})
		}
		for f := 0; f < rate; f++ {
			list = append(list, Ev{Kind: "SMPTEOffset", V: []int{f % 24, 59, 59, rate, f, 100 - f}})
		}
		one(list...)
	}
	for _, kind := range textKinds {
		list := []Ev{}
		for n := 0; n < 300; n++ {
			list = append(list, Ev{Kind: kind, D: tile([]byte("Abc9"), n)})
		}
		one(list...)
		for c := 0x20; c < 0x7f; c++ { // every printable character, alone and inside a text
			list := []Ev{}
			if c != ' ' {
				list = append(list, Ev{Kind: kind, D: []byte{byte(c)}})
			}
			one(append(list, Ev{Kind: kind, D: []byte{'a', byte(c), byte(c), 'z'}})...)
		}
	}
	for n := 0; n <= 16; n++ { // MIDIChannelPrefix, MIDIPort, SequenceNumber, Tempo at powers of two
		list := []Ev{}
		for k := -1; k <= 1; k++ {
			v := 1<<n + k
			if v >= 0 && v < 65536 {
				list = append(list, Ev{Kind: "SequenceNumber", V: []int{v}})
			}
			if v >= 0 && v < 128 {
				list = append(list, Ev{Kind: "MIDIPort", V: []int{v}})
			}
			if v >= 0 && v < 16 {
				list = append(list, Ev{Kind: "MIDIChannelPrefix", V: []int{v}})
			}
			for s := 0; s <= 8; s += 8 {
				if w := v << s; w >= 0 && w <= 0xffffff {
					list = append(list, Ev{Kind: "Tempo", V: []int{w}})
				}
			}
		}
		one(list...)
	}
	{
		list := []Ev{}
		for n := uint(0); n <= 28; n++ {
			for k := -1; k <= 1; k++ {
				if v := 1<<n + k; v >= 0 && v <= 0x0fffffff {
					list = append(list, Ev{Kind: "NoteOn", Delta: uint32(v), V: []int{60, 64}}, Ev{Kind: "Text", Delta: uint32(v), D: []byte("x")})
				}
			}
		}
		one(list...)
	}
	for format := 0; format <= 2; format++ {
		for d := 0; d <= 15; d++ {
			if v := 1<<d - 1; v > 0 {
				yield(File{Format: format, Division: v, Tracks: [][]Ev{{{Kind: "EndOfTrack"}}}})
			}
			if v := 1 << d; v < 0x8000 {
				yield(File{Format: format, Division: v, Tracks: [][]Ev{{{Kind: "EndOfTrack"}}}})
			}
		}
		for _, fps := range []int{0xe8, 0xe7, 0xe3, 0xe2} {
			for sub := 0; sub < 256; sub++ {
				yield(File{Format: format, Division: fps<<8 | sub, Tracks: [][]Ev{{{Kind: "EndOfTrack"}}}})
			}
		}
	}
	for n := 0; n < 40; n++ { // many tracks
		f := File{Format: 1, Division: 96}
		k := n
		if n > 20 {
			k = n * 13
		}
		for i := 0; i < k; i++ {
			f.Tracks = append(f.Tracks, []Ev{{Kind: "SequenceNumber", V: []int{i}}, {Kind: "EndOfTrack"}})
		}
		yield(f)
	}
}

func sweepCases(tier string, yield func(Case)) {
	sweepFiles(func(f File) {
		yield(Case{F: f})
		yield(Case{F: f, E: Enc{Run: []bool{true}}})
	})
}

func sweepTextCases(tier string, yield func(TextCase)) {
	sweepFiles(func(f File) {
		yield(TextCase{Case: Case{F: f}})
		yield(TextCase{Case: Case{F: f}, C4: true})
	})
}

// valueFiles yields every combination of the values of an event of three bytes, in files of 128 events; without all, every pair
// of data bytes once for each kind.
func valueFiles(all bool, yield func(File)) {
	one := func(list []Ev) {
		yield(File{Format: 1, Division: 480, Tracks: [][]Ev{append(list, Ev{Kind: "EndOfTrack"})}})
	}
	for _, kind := range []string{"NoteOn", "NoteOff", "Controller"} {
		for v := 0; v < 128; v++ {
			for ch := 0; ch < 16; ch++ {
				if !all && ch > 0 {
					break
				}
				list := []Ev{}
				for w := 0; w < 128; w++ {
					e := Ev{Kind: kind, Ch: ch, V: []int{v, w}}
					if !all {
						e.Ch = (v + w) % 16
					}
					list = append(list, e)
				}
				one(list)
			}
		}
	}
	pairs := func(kind string, base []int, i, j, m, n int, scale func(i, v int) int) {
		list := []Ev{}
		for a := 0; a <= m; a++ {
			for b := 0; b <= n; b++ {
				v := append([]int{}, base...)
				v[i], v[j] = scale(i, a), scale(j, b)
				list = append(list, Ev{Kind: kind, V: v})
				if len(list) == 128 {
					one(list)
					list = []Ev{}
				}
			}
		}
		one(list)
	}
	same := func(_, v int) int { return v }
	for _, rate := range []int{24, 25, 29, 30} {
		limits := []int{24, 59, 59, 0, rate - 1, 100}
		for i := range limits {
			for j := i + 1; j < len(limits); j++ {
				if i != 3 && j != 3 && (all || rate == 24+i) {
					pairs("SMPTEOffset", []int{13, 27, 33, rate, 7, 51}, i, j, limits[i], limits[j], same)
				}
			}
		}
	}
	power := func(i, v int) int {
		if i == 1 {
			return 1 << v
		}
		return v
	}
	pairs("TimeSignature", []int{4, 4, 24, 8}, 0, 1, 255, 7, power)
	pairs("TimeSignature", []int{4, 4, 24, 8}, 1, 2, 7, 255, power)
	pairs("TimeSignature", []int{4, 4, 24, 8}, 1, 3, 7, 255, power)
	if all {
		pairs("TimeSignature", []int{4, 4, 24, 8}, 0, 2, 255, 255, power)
		pairs("TimeSignature", []int{4, 4, 24, 8}, 0, 3, 255, 255, power)
		pairs("TimeSignature", []int{4, 4, 24, 8}, 2, 3, 255, 255, power)
	}
	step := 16
	if all {
		step = 1
	}
	list := []Ev{}
	for v := 0; v < 65536; v += step {
		list = append(list, Ev{Kind: "SequenceNumber", V: []int{v}}, Ev{Kind: "Tempo", V: []int{v*256 + v%256}}, Ev{Kind: "Tempo", V: []int{v}}, Ev{Kind: "Text", Delta: uint32(v), D: []byte{'x'}}, Ev{Kind: "Text", Delta: uint32(v)*4096 + uint32(v)%4096, D: []byte{'y'}})
		if len(list) >= 128 {
			one(list)
			list = []Ev{}
		}
	}
	one(list)
}

func init() {
	enumeration("C01", "values", func(_ string, yield func(Case)) { valueFiles(true, func(f File) { yield(Case{F: f}) }) }, checkDecode)
	enumeration("C02", "values", func(_ string, yield func(Case)) { valueFiles(true, func(f File) { yield(Case{F: f}) }) }, checkEncode)
	values := func(all bool, yield func(TextCase)) {
		i := 0
		valueFiles(all, func(f File) {
			i++
			yield(TextCase{Case: Case{F: f}, C4: i%2 == 0})
		})
	}
	some := func(tier string, yield func(TextCase)) { values(tier == "thorough", yield) }
	texts := func(_ string, yield func(TextCase)) { values(true, yield) }
	enumeration("C03", "values", some, checkText)
	enumeration("C04", "values", texts, checkJSON)
	enumeration("C20", "values", some, checkListing)
	enumeration("C22", "values", texts, checkExport)
	enumeration("C29", "values", some, checkMade)
	enumeration("C15", "values", func(tier string, yield func(TSVCase)) {
		texts(tier, func(c TextCase) { yield(TSVCase{TextCase: c}) })
	}, checkTSV)
	enumeration("C10", "values", func(_ string, yield func(TransposeCase)) {
		i := 0
		valueFiles(true, func(f File) {
			i++
			yield(TransposeCase{Case: Case{F: f}, Steps: i%25 - 12, C4: i%2 == 0})
		})
	}, checkTranspose)
	sources := func(tier string, yield func(SourceCase)) {
		some(tier, func(c TextCase) { yield(SourceCase{F: c.F, C4: c.C4}) })
	}
	enumeration("C05", "text-values", sources, checkTextSource)
	enumeration("C05", "json-values", sources, checkJSONSource)
	enumeration("C24", "values", func(tier string, yield func(EventCase)) {
		valueFiles(tier == "thorough", func(f File) {
			for _, e := range f.Tracks[0] {
				yield(EventCase{E: e})
			}
		})
	}, checkEvent)
	enumeration("C01", "sweep", sweepCases, checkDecode)
	property("C02", "encode", 150000, 1000000, func(t *rapid.T) Case { return genCase(t, binaryOpts()) }, checkEncode)
	enumeration("C02", "sweep", sweepCases, checkEncode)
	property("C03", "text", 16000, 300000, func(t *rapid.T) TextCase { return genTextCase(t, textOpts()) }, checkText)
	enumeration("C03", "sweep", sweepTextCases, checkText)
	property("C04", "json", 60000, 300000, func(t *rapid.T) TextCase { return genTextCase(t, jsonOpts()) }, checkJSON)
	enumeration("C04", "sweep", sweepTextCases, checkJSON)
}
