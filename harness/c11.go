package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/transcriptaze/midiasm/ops/notes"
	"pgregory.net/rapid"
)

// C11: the notes list has every note, with exact start and end times.

type NotesCase struct {
	F         File
	E         Enc
	C4        bool
	Transpose int
}

func (c NotesCase) String() string {
	return fmt.Sprintf("transpose:%d C4:%v %v", c.Transpose, c.C4, Case{F: c.F, E: c.E})
}

// Played is a note of the reference list, with times in milliseconds.
type Played struct {
	Ch, Note, Velocity int
	Name               string
	Start, End         *big.Rat
}

func (p Played) String() string {
	a, _ := p.Start.Float64()
	b, _ := p.End.Float64()
	return fmt.Sprintf("%s channel:%d note:%02X velocity:%d start:%.4fms end:%.4fms", p.Name, p.Ch, p.Note, p.Velocity, a, b)
}

type tempoChange struct {
	tick  uint64
	tempo int
}

func tempos(t []Ev) []tempoChange {
	list := []tempoChange{}
	tick := uint64(0)
	for _, e := range t {
		tick += uint64(e.Delta)
		if e.Kind == "Tempo" {
			list = append(list, tempoChange{tick, e.V[0]})
		}
	}
	return list
}

// clock returns the time in milliseconds of a tick, given the tempo changes in tick order.
func clock(changes []tempoChange, ppqn int) func(tick uint64) *big.Rat {
	return func(tick uint64) *big.Rat {
		at, last, tempo := new(big.Int), uint64(0), 500000 // µs × ppqn
		add := func(to uint64) {
			at.Add(at, new(big.Int).Mul(new(big.Int).SetUint64(to-last), big.NewInt(int64(tempo))))
			last = to
		}
		for _, c := range changes {
			if c.tick > tick {
				break
			}
			add(c.tick)
			tempo = c.tempo
		}
		add(tick)
		return new(big.Rat).SetFrac(at, big.NewInt(1000*int64(ppqn)))
	}
}

func refNotes(f File, transpose int, c4 bool) []Played {
	list := []Played{}
	for _, t := range f.Tracks {
		changes := tempos(t)
		if f.Format != 2 { // the tracks of a format 2 file are independent of each other
			changes = nil
			for _, u := range f.Tracks {
				changes = append(changes, tempos(u)...)
			}
			sort.SliceStable(changes, func(i, j int) bool { return changes[i].tick < changes[j].tick })
		}
		at := clock(changes, f.Division)
		type on struct {
			tick     uint64
			velocity int
			flats    bool
		}
		sounding := map[[2]int]on{}
		tick, flats := uint64(0), false
		end := func(k [2]int) {
			if s, ok := sounding[k]; ok {
				n := clamp7(k[1] + transpose)
				list = append(list, Played{Ch: k[0], Note: n, Velocity: s.velocity, Name: noteName(n, s.flats, c4), Start: at(s.tick), End: at(tick)})
				delete(sounding, k)
			}
		}
		for _, e := range t {
			tick += uint64(e.Delta)
			switch {
			case e.Kind == "KeySignature":
				flats = e.V[0] < 0
			case e.Kind == "NoteOn" && e.V[1] > 0:
				k := [2]int{e.Ch, e.V[0]}
				if _, ok := sounding[k]; !ok {
					sounding[k] = on{tick, e.V[1], flats}
				}
			case e.Kind == "NoteOn" || e.Kind == "NoteOff":
				end([2]int{e.Ch, e.V[0]})
			case e.Kind == "EndOfTrack":
				for ch := 0; ch < 16; ch++ {
					for n := 0; n < 128; n++ {
						end([2]int{ch, n})
					}
				}
			}
		}
	}
	return list
}

// Listed is a note as reported, with times in milliseconds.
type Listed struct {
	Ch, Note, Velocity   int
	Name                 string
	Start, End, Duration float64
}

var noteLine = regexp.MustCompile(`^(\S+)\s+channel:(\d+)\s+note:([0-9A-F]{2})\s+velocity:(\d+)\s+start:(\S+)\s+end:(\S+)\s+duration:(\S+)\s*$`)

func parseNotes(s string) ([]Listed, error) {
	list := []Listed{}
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		m := noteLine.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("unexpected line in the notes list: %q", l)
		}
		n := Listed{Name: m[1]}
		n.Ch, _ = strconv.Atoi(m[2])
		v, _ := strconv.ParseUint(m[3], 16, 8)
		n.Note = int(v)
		n.Velocity, _ = strconv.Atoi(m[4])
		for i, p := range []*float64{&n.Start, &n.End, &n.Duration} {
			d, err := time.ParseDuration(m[5+i])
			if err != nil {
				return nil, fmt.Errorf("invalid time in the notes list: %q", l)
			}
			*p = float64(d) / 1e6
		}
		list = append(list, n)
	}
	return list, nil
}

func parseNotesJSON(b []byte) ([]Listed, error) {
	doc := struct {
		Notes []struct {
			Channel  *int     `json:"channel"`
			MidiNote *int     `json:"midi-note"`
			Note     string   `json:"note"`
			Velocity *int     `json:"velocity"`
			Start    *float64 `json:"start"`
			End      *float64 `json:"end"`
			Duration *float64 `json:"duration"`
		} `json:"notes"`
	}{}
	if err := json.Unmarshal(b, &doc); err != nil {
		return nil, fmt.Errorf("invalid JSON notes list: %v", err)
	}
	list := []Listed{}
	for _, n := range doc.Notes {
		if n.Channel == nil || n.MidiNote == nil || n.Velocity == nil || n.Start == nil || n.End == nil || n.Duration == nil {
			return nil, fmt.Errorf("incomplete note in the JSON notes list")
		}
		list = append(list, Listed{Ch: *n.Channel, Note: *n.MidiNote, Velocity: *n.Velocity, Name: n.Note, Start: *n.Start * 1000, End: *n.End * 1000, Duration: *n.Duration * 1000})
	}
	return list, nil
}

// within is true if the exact time and the reported one differ by no more than one millisecond (times are reported to
// the millisecond).
func within(exact *big.Rat, got float64) bool {
	g := new(big.Rat)
	if g.SetFloat64(got) == nil {
		return false
	}
	g.Sub(g, exact)
	g.Abs(g)
	return g.Cmp(big.NewRat(1001, 1000)) <= 0
}

// compareNotes matches the reference list with the reported one, in whatever order.
func compareNotes(want []Played, got []Listed) error {
	if len(want) != len(got) {
		return fmt.Errorf("expected %d notes, got %d\nexpected:%s\ngot:%+v", len(want), len(got), clip(fmt.Sprint(want), 1500), clip(fmt.Sprint(got), 1500))
	}
	match := func(p Played, n Listed) bool {
		d := new(big.Rat).Sub(p.End, p.Start)
		return p.Ch == n.Ch && p.Note == n.Note && p.Velocity == n.Velocity && p.Name == n.Name && within(p.Start, n.Start) && within(p.End, n.End) && within(d, n.Duration)
	}
	straight := true
	for i := range want {
		if !match(want[i], got[i]) {
			straight = false
			break
		}
	}
	if straight {
		return nil
	}
	owner := make([]int, len(got)) // bipartite matching
	for i := range owner {
		owner[i] = -1
	}
	for i := range want {
		seen := make([]bool, len(got))
		var try func(i int) bool
		try = func(i int) bool {
			for j := range got {
				if !seen[j] && match(want[i], got[j]) {
					seen[j] = true
					if owner[j] < 0 || try(owner[j]) {
						owner[j] = i
						return true
					}
				}
			}
			return false
		}
		if !try(i) {
			near := ""
			for _, g := range got {
				if g.Ch == want[i].Ch && g.Velocity == want[i].Velocity {
					near += fmt.Sprintf("\n  %+v", g)
				}
			}
			return fmt.Errorf("missing note %v; listed: %s", want[i], clip(near, 1500))
		}
	}
	return nil
}

func checkNotes(c NotesCase, o *Obs) error {
	setMiddleC(c.C4)
	defer setMiddleC(false)
	want := refNotes(c.F, c.Transpose, c.C4)
	limit := new(big.Rat).SetInt64(1 << 42) // ms: about 139 years
	for _, p := range want {
		if p.End.Cmp(limit) > 0 {
			return nil
		}
	}
	changes := 0
	for _, t := range c.F.Tracks {
		changes += len(tempos(t))
	}
	o.Nontrivial(len(want) > 0)
	o.Label(len(want) > 0 && changes > 0, "tempo changes")
	o.Label(len(want) > 0 && changes == 0, "default tempo")
	o.Label(len(want) > 10, "more than 10 notes")
	for i, t := range c.F.Tracks {
		o.Label(i > 0 && c.F.Format == 1 && len(tempos(t)) > 0, "tempo changes in a track other than the first")
	}
	o.Label(c.F.Format == 2 && len(want) > 0, "format 2")
	b, _ := c.E.encode(c.F)
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	before, err := reencode(smf)
	if err != nil {
		return err
	}
	for _, asJSON := range []bool{false, true} {
		var out bytes.Buffer
		p := notes.Notes{Transpose: c.Transpose, JSON: asJSON, Writer: &out}
		if err := p.Execute(smf); err != nil {
			return fmt.Errorf("JSON:%v error: %v", asJSON, err)
		}
		var got []Listed
		if asJSON {
			got, err = parseNotesJSON(out.Bytes())
		} else {
			got, err = parseNotes(out.String())
		}
		if err == nil {
			err = compareNotes(want, got)
		}
		if err != nil {
			return fmt.Errorf("JSON:%v %v", asJSON, err)
		}
	}
	if after, err := reencode(smf); err != nil || !bytes.Equal(before, after) {
		return fmt.Errorf("listing the notes changed the file (%v)", err)
	}
	return nil
}

// genScore draws a file made of notes and tempo changes.
func genScore(t *rapid.T) File {
	f := File{Format: pick(t, "format", 1, 0, 2, 1), Division: genDivision(t, Opts{NoSMPTE: true})}
	small := rapid.Bool().Draw(t, "small-deltas")
	long := !small && f.Division >= 96 && chance(t, "long", 1, 3) // years of music, but less than the 292 that a time.Duration can hold
	delta := func(t *rapid.T) uint32 {
		if long {
			return pick(t, "delta-long", 0x0fffffff, 0x0ffffffe, uint32(rapid.IntRange(0, 0x0fffffff).Draw(t, "delta-any")), 0, 1)
		}
		if small || chance(t, "delta-small", 3, 4) {
			return uint32(rapid.IntRange(0, 4*f.Division+2).Draw(t, "delta"))
		}
		return genDelta(t) & 0xffffff
	}
	opts := Opts{Text: AnyBytes, Delta: delta, Packets: true}
	pool := rapid.SliceOfN(rapid.IntRange(0, 127), 1, 4).Draw(t, "note-pool")
	channels := rapid.SliceOfN(rapid.IntRange(0, 15), 1, 3).Draw(t, "channel-pool")
	tempo := func() Ev {
		return Ev{Kind: "Tempo", Delta: delta(t), V: []int{pick(t, "tempo", rapid.IntRange(1, 0xffffff).Draw(t, "tempo-any"), rapid.IntRange(200000, 1200000).Draw(t, "tempo-usual"), 500000, 1, 16777215, 333333)}}
	}
	ntracks := rapid.IntRange(0, 4).Draw(t, "tracks")
	if f.Format == 0 && ntracks > 1 {
		ntracks = 1
	}
	own := chance(t, "own-tempos", 1, 4)
	for i := 0; i < ntracks; i++ {
		list := []Ev{}
		if i == 0 {
			for n := rapid.IntRange(0, 5).Draw(t, "tempos"); n > 0; n-- {
				list = append(list, tempo())
				if chance(t, "other", 1, 5) {
					list = append(list, genEvent(t, pick(t, "kind", "TimeSignature", "Text", "KeySignature", "SMPTEOffset"), opts))
				}
			}
			if f.Format != 0 {
				if !chance(t, "notes-in-track-0", 1, 3) {
					f.Tracks = append(f.Tracks, append(list, Ev{Kind: "EndOfTrack", Delta: delta(t)}))
					continue
				}
			} else {
				list = nil
			}
		}
		rest := -1
		if long && chance(t, "rest", 1, 3) { // more than 2^31 or 2^32 ticks without a note
			rest = rapid.IntRange(1, 12).Draw(t, "rest-before")
		}
		for n := rapid.IntRange(0, 30).Draw(t, "events"); n > 0; n-- {
			if rest--; rest == 0 {
				for k := rapid.IntRange(6, 20).Draw(t, "rest-length"); k > 0; k-- {
					list = append(list, Ev{Kind: "MIDIPort", Delta: 0x0fffffff, V: []int{0}})
				}
			}
			k := rapid.IntRange(0, 19).Draw(t, "event")
			note := []int{pick(t, "note", pool...), gen7(t, "velocity")}
			ch := pick(t, "channel", channels...)
			switch {
			case k < 8:
				if k < 6 && note[1] == 0 {
					note[1] = 1 + k
				}
				list = append(list, Ev{Kind: "NoteOn", Delta: delta(t), Ch: ch, V: note})
			case k < 14:
				list = append(list, Ev{Kind: "NoteOff", Delta: delta(t), Ch: ch, V: note})
			case k < 16:
				if f.Format == 0 || own {
					list = append(list, tempo())
				}
			case k < 17:
				list = append(list, genEvent(t, "KeySignature", opts))
			default:
				list = append(list, genEvent(t, pick(t, "kind", allKinds...), opts))
				if e := &list[len(list)-1]; e.Kind == "Tempo" && f.Format != 0 && !own {
					e.Kind, e.V = "MIDIPort", []int{0}
				}
			}
		}
		f.Tracks = append(f.Tracks, append(list, Ev{Kind: "EndOfTrack", Delta: delta(t)}))
	}
	// tempo changes of different tracks never coincide (if they do, which of them counts is not specified)
	if f.Format == 1 {
		at := map[uint64]int{}
		for i, t := range f.Tracks {
			tick := uint64(0)
			for j, e := range t {
				tick += uint64(e.Delta)
				if e.Kind == "Tempo" {
					if k, ok := at[tick]; ok && k != i {
						f.Tracks[i][j] = Ev{Kind: "MIDIPort", Delta: e.Delta, V: []int{0}}
					} else {
						at[tick] = i
					}
				}
			}
		}
	}
	return f
}

func init() {
	property("C11", "notes", 200000, 800000, func(t *rapid.T) NotesCase {
		f := genScore(t)
		c := NotesCase{F: f, C4: rapid.Bool().Draw(t, "C4")}
		if rapid.Bool().Draw(t, "running") {
			c.E.Run = []bool{true}
		}
		if chance(t, "transposed", 1, 3) {
			c.Transpose = genSteps(t)
		}
		return c
	}, checkNotes)
}
