package harness

import "fmt"

// Files with fields, lines and tracks far longer than those that are generated at random: lengths with a four byte
// variable length quantity, lines of megabytes, a hundred thousand events, thousands of tracks.

type BigCase struct {
	Shape string
	N     int
	C4    bool
}

func (c BigCase) String() string { return fmt.Sprintf("%s of size %d C4:%v", c.Shape, c.N, c.C4) }

func (c BigCase) file() File {
	f := File{Format: 1, Division: 480}
	track := func(list ...Ev) { f.Tracks = append(f.Tracks, append(list, Ev{Kind: "EndOfTrack"})) }
	data := make([]byte, c.N)
	for i := range data {
		data[i] = byte(i*7+i/251) & 0x7f
	}
	words := tile([]byte("All work and no play & <so on> \\ \"x\" "), c.N)
	words[c.N-1] = '.'
	switch c.Shape {
	case "SysExMessage":
		track(Ev{Kind: "SysExMessage", M: []byte{0x41}, D: data, End: true}, Ev{Kind: "NoteOn", Delta: 1, V: []int{60, 64}})
	case "SysEx packets":
		track(Ev{Kind: "SysExMessage", M: []byte{0, 0x20, 0x29}, D: data[:c.N/2]}, Ev{Kind: "SysExContinuation", Delta: 5, D: data}, Ev{Kind: "SysExContinuation", Delta: 7, D: data[:3], End: true})
	case "SysExEscape":
		track(Ev{Kind: "SysExEscape", D: data})
	case "SequencerSpecificEvent":
		track(Ev{Kind: "SequencerSpecificEvent", M: []byte{0x41}, D: data})
	case "events":
		list := []Ev{}
		for i := 0; i < c.N; i++ {
			d := uint32(i % 300)
			switch i % 9 {
			case 0:
				list = append(list, Ev{Kind: "NoteOn", Delta: d, Ch: i / 9 % 16, V: []int{i / 9 % 128, i / 11 % 128}})
			case 1:
				list = append(list, Ev{Kind: "NoteOff", Delta: d, Ch: i / 9 % 16, V: []int{i / 9 % 128, i / 11 % 128}})
			case 2:
				list = append(list, Ev{Kind: "Controller", Delta: d, Ch: i / 9 % 16, V: []int{i / 13 % 128, i / 11 % 128}})
			case 3:
				list = append(list, Ev{Kind: "ProgramChange", Delta: d, Ch: i / 9 % 16, V: []int{i / 13 % 128}})
			case 4:
				list = append(list, Ev{Kind: "PitchBend", Delta: d, Ch: i / 9 % 16, V: []int{i % 16384}})
			case 5:
				list = append(list, Ev{Kind: "Tempo", Delta: d, V: []int{i%0xffffff + 1}})
			case 6:
				list = append(list, Ev{Kind: textKinds[i/9%len(textKinds)], Delta: d, D: []byte(fmt.Sprintf("text %d", i))})
			case 7:
				list = append(list, Ev{Kind: "KeySignature", Delta: d, V: []int{i/9%15 - 7, i / 9 % 2}})
			case 8:
				list = append(list, Ev{Kind: "SysExMessage", Delta: d, M: []byte{0x41}, D: []byte{byte(i % 128), 1, 2}, End: true})
			}
		}
		track(list...)
	case "tracks":
		for i := 0; i < c.N; i++ {
			track(Ev{Kind: "Text", D: []byte(fmt.Sprint(i))}, Ev{Kind: "NoteOn", Ch: i % 16, Delta: uint32(i), V: []int{i % 128, 64}})
		}
	default:
		track(Ev{Kind: c.Shape, D: words}, Ev{Kind: "NoteOn", Delta: 1, V: []int{60, 64}}, Ev{Kind: c.Shape, D: words[:c.N/2]})
	}
	return f
}

func bigCases(tier string, yield func(BigCase)) {
	sizes := []int{2097152 + 5}
	if tier == "thorough" {
		sizes = []int{2097151, 2097152, 2097153, 65535, 65536, 70000, 1<<20 - 20, 1<<20 + 5, 4194310}
	}
	for i, n := range sizes {
		for _, k := range append([]string{"SysExMessage", "SysEx packets", "SysExEscape", "SequencerSpecificEvent"}, textKinds...) {
			yield(BigCase{Shape: k, N: n, C4: i%2 == 1})
		}
	}
	for _, n := range map[bool][]int{false: {20000}, true: {20000, 65537, 150000}}[tier == "thorough"] {
		yield(BigCase{Shape: "events", N: n})
	}
	for _, n := range map[bool][]int{false: {3000}, true: {3000, 32768, 65535}}[tier == "thorough"] {
		yield(BigCase{Shape: "tracks", N: n})
	}
}

func bigFiles[C any](id, name string, wrap func(f File, c4 bool) C, check func(C, *Obs) error) {
	enumeration(id, name, bigCases, func(c BigCase, o *Obs) error {
		o.Label(true, "big: "+c.Shape)
		o.Nontrivial(true)
		return check(wrap(c.file(), c.C4), o)
	})
}

func init() {
	plainCase := func(f File, c4 bool) Case { return Case{F: f} }
	textCase := func(f File, c4 bool) TextCase { return TextCase{Case: Case{F: f}, C4: c4} }
	source := func(f File, c4 bool) SourceCase { return SourceCase{F: f, C4: c4} }
	bigFiles("C01", "big", plainCase, checkDecode)
	bigFiles("C02", "big", plainCase, checkEncode)
	bigFiles("C03", "big", textCase, checkText)
	bigFiles("C04", "big", textCase, checkJSON)
	bigFiles("C05", "text-big", source, checkTextSource)
	bigFiles("C05", "json-big", source, checkJSONSource)
	enumeration("C15", "big", func(tier string, yield func(TSVCase)) {
		add := func(c BigCase, tabular bool) {
			yield(TSVCase{TextCase: TextCase{Case: Case{F: c.file()}}, Delimiter: ";", Tabular: tabular})
		}
		add(BigCase{Shape: "events", N: 70000}, false)
		add(BigCase{Shape: "events", N: 70000}, true)
		add(BigCase{Shape: "tracks", N: 1000}, false)
		add(BigCase{Shape: "tracks", N: 200}, true)
		add(BigCase{Shape: "Text", N: 2097160}, false)
		add(BigCase{Shape: "SysExMessage", N: 300000}, false)
		add(BigCase{Shape: "Marker", N: 10000200}, true) // wider than the fmt package can pad
	}, checkTSV)
	bigFiles("C16", "big", textCase, checkNames)
	bigFiles("C18", "big", plainCase, checkValidate)
	bigFiles("C20", "big", textCase, checkListing)
	bigFiles("C22", "big", textCase, checkExport)
}
