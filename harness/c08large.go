package harness

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"time"
)

// C08, large sources: time and memory grow in proportion to the source.

type LargeSource struct {
	Shape string
	JSON  bool
	N     int
}

func (c LargeSource) String() string {
	return fmt.Sprintf("source of %s of size %d JSON:%v", c.Shape, c.N, c.JSON)
}

const sourceHead = "MThd length:6, format:1, tracks:1, metrical time:480 ppqn\nMTrk 0 length:0\n"
const sourceTail = "delta:0 EndOfTrack\n"

// sourceShapes are sources that are not simply a file written down; those of files are in shapes.
var sourceShapes = map[string]func(n int) string{
	"blank lines":      func(n int) string { return sourceHead + strings.Repeat("\n", n) + sourceTail },
	"indented lines":   func(n int) string { return sourceHead + strings.Repeat("      \n", n) + sourceTail },
	"comments":         func(n int) string { return strings.Repeat("%% a comment\n", n) + sourceHead + sourceTail },
	"blank line":       func(n int) string { return sourceHead + strings.Repeat(" ", 8*n) + "\n" + sourceTail },
	"words":            func(n int) string { return strings.Repeat("words ", n) + "\n" },
	"no header":        func(n int) string { return strings.Repeat("delta:0 NoteOn channel:0 note:C4, velocity:64\n", n) },
	"digits":           func(n int) string { return sourceHead + "delta:" + strings.Repeat("1", 8*n) + " EndOfTrack\n" },
	"headers":          func(n int) string { return strings.Repeat(sourceHead, n/2) + sourceTail },
	"tracks of no end": func(n int) string { return sourceHead + strings.Repeat("MTrk 0 length:0\n", n) },
	"ends":             func(n int) string { return sourceHead + strings.Repeat(sourceTail, n) },
	"a fault at the end": func(n int) string {
		return sourceHead + strings.Repeat("delta:0 NoteOn channel:0 note:C4, velocity:64\n", n) + "delta:0 NoteOn channel:99 note:C4, velocity:64\n" + sourceTail
	},
	"CRLF": func(n int) string {
		return strings.ReplaceAll(sourceHead+strings.Repeat("delta:0 NoteOn channel:0 note:C4, velocity:64\n", n)+sourceTail, "\n", "\r\n")
	},
}

var jsonShapes = map[string]func(n int) string{
	"opening brackets": func(n int) string { return strings.Repeat("[", 8*n) },
	"opening objects":  func(n int) string { return strings.Repeat(`{"header":`, n) },
	"blanks":           func(n int) string { return strings.Repeat(" ", 8*n) + "{}" },
	"unknown fields":   func(n int) string { return `{` + strings.Repeat(`"x":1,`, n) + `"tracks":[]}` },
	"null tracks":      func(n int) string { return `{"tracks":[` + strings.Repeat(`null,`, n) + `null]}` },
	"empty events": func(n int) string {
		return `{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","events":[` + strings.Repeat(`{},`, n) + `{}]}]}`
	},
	"digits": func(n int) string {
		return `{"header":{"tag":"MThd","format":` + strings.Repeat("1", 8*n) + `,"PPQN":480},"tracks":[]}`
	},
}

func (c LargeSource) source(n int) ([]byte, error) {
	more := sourceShapes
	if c.JSON {
		more = jsonShapes
	}
	if g, ok := more[c.Shape]; ok {
		return []byte(g(n)), nil
	}
	f, err := refParse(shapes[c.Shape](n))
	if err != nil {
		return nil, err
	}
	if c.JSON {
		return jsonSource(f, n%2 == 0), nil
	}
	return []byte(joinLines(textSource(f, Layout{}, false), Layout{})), nil
}

func checkLargeSource(c LargeSource, o *Obs) error {
	o.Nontrivial(true)
	o.Label(true, "large: "+c.Shape)
	large, err := c.source(c.N)
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	small, err := c.source(c.N / 8)
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	assemble := func(b []byte) (time.Duration, uint64, error) {
		before, start := allocated(), time.Now()
		_, err := assembler(c.JSON).Assemble(bytes.NewReader(b))
		return time.Since(start), allocated() - before, err
	}
	t1, m1, err := assemble(large)
	t2, m2, _ := assemble(small)
	o.Label(err == nil, "large: accepted")
	if os.Getenv("VP_VERBOSE") != "" {
		fmt.Printf("LARGE %-40s JSON:%-5v %8d bytes %8v %6.1f bytes/byte; an eighth: %8v %6.1f (%.80v)\n", c.Shape, c.JSON, len(large), t1.Round(time.Millisecond), float64(m1)/float64(len(large)), t2.Round(time.Millisecond), float64(m2)/float64(len(small)), err)
	}
	if limit := uint64(64<<20) + 24*m2 + 100*uint64(len(large)); m1 > limit {
		return fmt.Errorf("assembling %d bytes allocated %d bytes of memory, %d bytes allocated %d", len(large), m1, len(small), m2)
	}
	for i := 0; t1 > 3*time.Second && t1 > 24*t2; i++ { // not a matter of chance
		if i == 3 {
			return fmt.Errorf("assembling %d bytes took %v, %d bytes took %v", len(large), t1, len(small), t2)
		}
		t1, _, _ = assemble(large)
		t3, _, _ := assemble(small)
		t2 = max(t2, t3)
	}
	return nil
}

func init() {
	enumeration("C08", "large", func(tier string, yield func(LargeSource)) {
		sizes := []int{40000}
		if tier == "thorough" {
			sizes = []int{40000, 200000}
		}
		for _, n := range sizes {
			for _, j := range []bool{false, true} {
				names := []string{}
				for k := range shapes {
					if k != "truncated track" {
						names = append(names, k)
					}
				}
				more := sourceShapes
				if j {
					more = jsonShapes
				}
				for k := range more {
					names = append(names, k)
				}
				sortStrings(names)
				for _, k := range names {
					yield(LargeSource{Shape: k, JSON: j, N: n})
				}
			}
		}
	}, checkLargeSource)
}
