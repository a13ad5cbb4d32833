package harness

import (
	"bytes"
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/transcriptaze/midiasm/ops/click"
	"pgregory.net/rapid"
)

// C14: the click track lists every tempo and time signature change with its bar.

type barChange struct {
	Tempo  int // 0: no change
	Num    int // 0: no change
	Den    int
	First  bool  // the time signature comes before the tempo
	Other  int   // the track that the time signature is in (format 1)
	Track  int   // the track that the tempo is in (format 1)
	Bars   int   // number of bars until the next change
	Within []int // further tempo changes within these bars: (bar, thousandths of a bar, tempo)
}

type ClickCase struct {
	Format  int
	PPQN    int
	Changes []barChange
	Tail    int // ticks from the last change to the end of the track, over and above the bars
	Noise   int // number of unrelated events
	Extra   int // additional tracks (format 1)
	Longest int // the track that ends last
	Short   int // where the others end: 0 as soon as they can, otherwise in the last bars
}

func (c ClickCase) String() string {
	return fmt.Sprintf("format:%d ppqn:%d changes:%+v tail:%d extra:%d longest:%d short:%d", c.Format, c.PPQN, c.Changes, c.Tail, c.Extra, c.Longest, c.Short)
}

type clickEntry struct {
	bar   int
	tempo int
	sig   string
}

// at is an event with an absolute tick.
type at struct {
	tick uint64
	e    Ev
}

func track(list []at) []Ev {
	var last uint64
	out := []Ev{}
	for _, x := range list {
		for x.tick-last > 0x0fffffff { // a delta has 28 bits
			out = append(out, Ev{Delta: 0x0fffffff, Kind: "Marker", D: []byte("-")})
			last += 0x0fffffff
		}
		x.e.Delta = uint32(x.tick - last)
		last = x.tick
		out = append(out, x.e)
	}
	return out
}

// bpm is the tempo in beats per minute, rounded to the nearest, halves up.
func bpm(tempo int) int {
	r := new(big.Rat).SetFrac64(60000000, int64(tempo))
	r.Add(r, big.NewRat(1, 2))
	return int(new(big.Int).Quo(r.Num(), r.Denom()).Int64())
}

func gcd(a, b uint64) uint64 {
	for b > 0 {
		a, b = b, a%b
	}
	return a
}

// build returns the file, the expected entries, the bar that the end of the last track is in (counting a bar line as the
// start of the next bar) and the entry that a listing may have for the last bar.
func (c ClickCase) build() (File, []clickEntry, int, clickEntry) {
	f := File{Format: c.Format, Division: c.PPQN}
	tracks := make([][]at, 1)
	if c.Format != 0 {
		tracks = make([][]at, 1+c.Extra)
	}
	in := func(i int) int { return i % len(tracks) }
	tick, bar := uint64(0), 1
	num, den, tempo := 4, 4, 120
	entries := []clickEntry{{1, 120, "4/4"}}
	change := func(bar int) {
		e := clickEntry{bar, tempo, fmt.Sprintf("%d/%d", num, den)}
		if entries[len(entries)-1].bar == bar {
			entries[len(entries)-1] = e
		} else {
			entries = append(entries, e)
		}
	}
	for i, x := range c.Changes {
		add := func(i int, e Ev) { tracks[in(i)] = append(tracks[in(i)], at{tick, e}) }
		if x.Num > 0 && x.First {
			add(x.Other, Ev{Kind: "TimeSignature", V: []int{x.Num, x.Den, 24, 8}})
		}
		if x.Tempo > 0 {
			add(x.Track, Ev{Kind: "Tempo", V: []int{x.Tempo}})
			tempo = bpm(x.Tempo)
		}
		if x.Num > 0 && !x.First {
			add(x.Other, Ev{Kind: "TimeSignature", V: []int{x.Num, x.Den, 24, 8}})
		}
		if x.Num > 0 {
			num, den = x.Num, x.Den
		}
		if x.Tempo > 0 || x.Num > 0 {
			change(bar)
		}
		// a bar need not be a whole number of ticks, but a time signature has to fall on a bar line
		n, d := uint64(4*num*c.PPQN), uint64(den)
		bars := uint64(x.Bars) * (d / gcd(n, d))
		if i < c.Noise {
			add(1, Ev{Kind: "NoteOn", V: []int{60, 64}})
			add(1, Ev{Kind: "NoteOff", V: []int{60, 64}})
		}
		if len(x.Within) == 3 && x.Within[0] < x.Bars {
			offset := (uint64(x.Within[0])*n + uint64(x.Within[1])*n/1000) / d
			tracks[in(x.Track)] = append(tracks[in(x.Track)], at{tick + offset, Ev{Kind: "Tempo", V: []int{x.Within[2]}}})
			tempo = bpm(x.Within[2])
			change(bar + int(offset*d/n))
		}
		tick += bars * n / d
		bar += int(bars)
	}
	end := tick + uint64(c.Tail)
	last := bar + c.Tail*den/(4*num*c.PPQN)
	for i, t := range tracks {
		at := at{end, Ev{Kind: "EndOfTrack"}}
		if i != in(c.Longest) { // the last of them is the one that counts
			at.tick = 0
			if c.Short > 0 {
				at.tick = tick + uint64(c.Tail/c.Short)
			}
			if n := len(t); n > 0 && t[n-1].tick > at.tick {
				at.tick = t[n-1].tick
			}
		}
		f.Tracks = append(f.Tracks, track(append(t, at)))
	}
	return f, entries, last, clickEntry{last, tempo, fmt.Sprintf("%d/%d", num, den)}
}

var clickLine = regexp.MustCompile(`^bar\s+(\d+)\s+tempo:(\d+)\s+time-signature\s*(\S*)\s*$`)
var spanLine = regexp.MustCompile(`^bars\s+(\d+):(\d+)\s+tempo:(\d+)\s+time-signature\s*(\S*)\s*$`)

func checkClick(c ClickCase, o *Obs) error {
	f, entries, last, final := c.build()
	b, _ := Enc{}.encode(f)
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	var out bytes.Buffer
	x := click.ClickTrack{Writer: &out}
	if err := x.Execute(smf); err != nil {
		return fmt.Errorf("click track error: %v", err)
	}
	listed := []clickEntry{}
	spans := [][2]int{}
	spanEntries := []clickEntry{}
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		if m := clickLine.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[1])
			t, _ := strconv.Atoi(m[2])
			listed = append(listed, clickEntry{n, t, m[3]})
		} else if m := spanLine.FindStringSubmatch(l); m != nil {
			a, _ := strconv.Atoi(m[1])
			z, _ := strconv.Atoi(m[2])
			t, _ := strconv.Atoi(m[3])
			spans = append(spans, [2]int{a, z})
			spanEntries = append(spanEntries, clickEntry{a, t, m[4]})
		} else {
			return fmt.Errorf("unexpected line in the click track: %q", l)
		}
	}
	o.Nontrivial(len(entries) > 1)
	o.Label(len(entries) > 1 && c.Format == 0, "format 0")
	for i, x := range c.Changes {
		o.Label(i > 0 && x.Num > 0, "time signature change")
		o.Label(x.Num > 0 && c.Format == 1 && x.Other%len(f.Tracks) > 1, "time signature in the third track or later")
		o.Label(x.Num > 0 && 4*x.Num*c.PPQN%x.Den != 0, "bar that is not a whole number of ticks")
		o.Label(len(x.Within) > 0, "tempo change within a bar")
	}
	for _, t := range f.Tracks {
		for _, e := range t {
			o.Label(e.Delta == 0x0fffffff, "gap that is longer than a delta can be")
		}
	}
	previous := 0
	for _, l := range listed {
		if l.bar <= previous {
			return fmt.Errorf("bars repeated or out of order\n%s", out.String())
		}
		previous = l.bar
	}
	// an entry for the bar in which the piece ends is optional
	if n := len(listed); n == len(entries)+1 {
		l := listed[n-1]
		if (l.bar != last && l.bar != last-1) || l.tempo != final.tempo || l.sig != final.sig {
			return fmt.Errorf("entry for bar %d, which has no change (the last bar is %d, %d bpm, %s)\n%s", l.bar, last, final.tempo, final.sig, out.String())
		}
		entries = append(entries, l)
	}
	if len(listed) != len(entries) {
		return fmt.Errorf("expected %d entries %v, got %d\n%s", len(entries), entries, len(listed), out.String())
	}
	if len(spans) != len(entries)-1 {
		return fmt.Errorf("expected %d spans, got %d\n%s", len(entries)-1, len(spans), out.String())
	}
	for i := range entries {
		if listed[i] != entries[i] {
			return fmt.Errorf("expected %+v, got %+v\n%s", entries[i], listed[i], out.String())
		}
		if i+1 < len(entries) {
			if i >= len(spans) || spans[i] != [2]int{entries[i].bar, entries[i+1].bar - 1} || spanEntries[i] != entries[i] {
				return fmt.Errorf("span %d: expected bars %d:%d of %+v\n%s", i+1, entries[i].bar, entries[i+1].bar-1, entries[i], out.String())
			}
		}
	}
	return nil
}

func init() {
	property("C14", "click", 400000, 1500000, func(t *rapid.T) ClickCase {
		c := ClickCase{Format: pick(t, "format", 1, 0, 1, 1), PPQN: pick(t, "ppqn", 480, 96, 24, 120, 960, 192, 32, 9600, 1, 3, 7, 25, 32767, rapid.IntRange(1, 32767).Draw(t, "ppqn-any")), Noise: rapid.IntRange(0, 3).Draw(t, "noise"), Extra: rapid.IntRange(0, 3).Draw(t, "extra"), Longest: rapid.IntRange(0, 3).Draw(t, "longest"), Short: rapid.IntRange(0, 2).Draw(t, "short"), Tail: pick(t, "tail", 0, 1, rapid.IntRange(0, 100000).Draw(t, "tail-any"))}
		n := rapid.IntRange(1, 8).Draw(t, "changes")
		for i := 0; i < n; i++ {
			x := barChange{Bars: pick(t, "bars", 1, 2, 3, 4, 8, rapid.IntRange(1, 200).Draw(t, "bars-any")), First: rapid.Bool().Draw(t, "first"), Other: rapid.IntRange(0, 3).Draw(t, "other"), Track: pick(t, "track", 0, 0, 0, 1, 2)}
			if chance(t, "within?", 1, 3) {
				x.Within = []int{rapid.IntRange(0, x.Bars-1).Draw(t, "within-bar"), pick(t, "within-at", 0, 999, rapid.IntRange(0, 999).Draw(t, "within-any")), rapid.IntRange(200000, 1200000).Draw(t, "within-tempo")}
			}
			if rapid.Bool().Draw(t, "tempo?") {
				x.Tempo = pick(t, "tempo", 500000, 1000000, 400000, 333333, 300000, 16777215, rapid.IntRange(1, 0xffffff).Draw(t, "tempo-any"), rapid.IntRange(200000, 1200000).Draw(t, "tempo-usual"))
			}
			if rapid.Bool().Draw(t, "signature?") {
				x.Num = pick(t, "numerator", 4, 3, 2, 1, 5, 6, 7, 9, 12, 255, rapid.IntRange(1, 255).Draw(t, "numerator-any"))
				x.Den = 1 << rapid.IntRange(0, 7).Draw(t, "denominator")
			}
			c.Changes = append(c.Changes, x)
		}
		return c
	}, checkClick)
}
