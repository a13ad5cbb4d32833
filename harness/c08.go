package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"github.com/transcriptaze/midiasm/ops/assemble"
	"pgregory.net/rapid"
)

// C08: any source is either rejected or assembled to a file that can be read back.

type Source struct {
	S    []byte
	JSON bool
	C4   bool
	Note string
}

func (c Source) String() string {
	return fmt.Sprintf("JSON:%v C4:%v (%s):\n%s", c.JSON, c.C4, c.Note, clip(string(c.S), 4000))
}

func assembler(isJSON bool) assemble.Assembler {
	if isJSON {
		return assemble.NewJSONAssembler()
	}
	return assemble.NewTextAssembler()
}

func checkSource(c Source, o *Obs) error {
	setMiddleC(c.C4)
	defer setMiddleC(false)
	o.Label(true, c.Note)
	o.Nontrivial(len(c.S) > 30)
	before, running := allocated(), runtime.NumGoroutine()
	b, err := assembler(c.JSON).Assemble(bytes.NewReader(c.S))
	used := allocated() - before
	if limit := uint64(16<<20) + 20000*uint64(len(c.S)); used > limit {
		return fmt.Errorf("assembling %d bytes allocated %d bytes", len(c.S), used)
	}
	if n := stillRunning(running); n > 0 {
		return fmt.Errorf("%d goroutines are left running by the assembler (error: %v)", n, err)
	}
	if err != nil {
		o.Label(true, "rejected")
		return nil
	}
	o.Label(true, "accepted")
	f, err := refParseStrict(b)
	if err != nil {
		return fmt.Errorf("source accepted, but the assembled file is malformed: %v\n% X", err, b)
	}
	if smf, err := decode(b); err != nil {
		return fmt.Errorf("source accepted, but the assembled file cannot be decoded: %v\n% X", err, b)
	} else if got, _, err := adapt(smf); err != nil {
		return err
	} else if d := diff(f, got); d != "" {
		return fmt.Errorf("assembled file is decoded incorrectly: %s", d)
	}
	return nil
}

var textTokens = []string{"MThd", "MTrk", "MTrk 1", "MThd length:6, format:1, tracks:1, metrical time:480 ppqn", "delta:0", "delta:", "delta:99999999999", "delta:268435456", "tick:0", "format:", "format:0", "metrical time:", "SMPTE:25 fps,40 sub-frames", "SMPTE:29 fps,300 sub-frames", "%%", "channel:", "channel:16", "note:", "note:C♯-1", "note:B♯9", "velocity:128", "velocity:", "tempo:", "value:", ",", "\n", "\r\n", " ", "♭", "…", "\xff", "\x00", "00 F7", "F7", "SysExMessage Yamaha, ", "delta:0 SysExContinuation ", "delta:0 SysExEscape 00", "delta:0 SysExMessage Roland, 01", "delta:0 NoteOn channel:0 note:C4, velocity:64", "delta:0 EndOfTrack", "delta:0 KeySignature C major", "delta:0 Text ", "-1", "0", "4/0", "4/3", "999"}

var jsonTokens = []string{"null", "true", "false", "-1", "0", "1", "128", "255", "256", "65536", "1e3", "1.5", "1e400", "\"\"", "\"x\"", "[]", "{}", "[null]", "{\"id\":[]}", "{\"id\":[0,1]}", "{\"id\":[1,2,3]}", "{\"id\":[247]}", "{\"id\":[0,0,247]}", "[0]", "[247]", "[240,247]", "\"\\ud800\"", "\"00 FF\"", "9223372036854775808", "[[[[]]]]", ",", "}", "]", "{", "[", "\""}

// mutateText edits a source at the level of characters, tokens and lines.
func mutateText(t *rapid.T, s string, tokens []string) string {
	n := rapid.IntRange(1, 4).Draw(t, "mutations")
	for ; n > 0; n-- {
		i := rapid.IntRange(0, len(s)).Draw(t, "at")
		switch rapid.IntRange(0, 6).Draw(t, "op") {
		case 0:
			s = s[:i] + pick(t, "token", tokens...) + s[i:]
		case 1:
			k := min(len(s), i+rapid.IntRange(1, 10).Draw(t, "delete"))
			s = s[:i] + s[k:]
		case 2:
			k := min(len(s), i+rapid.IntRange(1, 10).Draw(t, "delete"))
			s = s[:i] + pick(t, "token", tokens...) + s[k:]
		case 3, 4: // lines
			lines := strings.Split(s, "\n")
			a := rapid.IntRange(0, len(lines)-1).Draw(t, "line")
			b := rapid.IntRange(0, len(lines)-1).Draw(t, "line2")
			switch rapid.IntRange(0, 2).Draw(t, "line-op") {
			case 0:
				lines[a], lines[b] = lines[b], lines[a]
			case 1:
				lines = append(lines[:a], lines[a+1:]...)
			default:
				lines = append(lines[:b], append([]string{lines[a]}, lines[b:]...)...)
			}
			s = strings.Join(lines, "\n")
		case 5:
			if i < len(s) {
				b := []byte(s)
				b[i] = rapid.Byte().Draw(t, "byte")
				s = string(b)
			}
		default:
			s = s[:i]
		}
	}
	return s
}

// paths lists the places of a JSON document.
func paths(v any, prefix []any, visit func(p []any)) {
	visit(prefix)
	switch x := v.(type) {
	case map[string]any:
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			paths(x[k], append(append([]any{}, prefix...), k), visit)
		}
	case []any:
		for i := range x {
			paths(x[i], append(append([]any{}, prefix...), i), visit)
		}
	}
}

func sortStrings(list []string) {
	for i := range list {
		for j := i; j > 0 && list[j] < list[j-1]; j-- {
			list[j], list[j-1] = list[j-1], list[j]
		}
	}
}

func replaceAt(v any, p []any, f func(any) (any, bool)) any {
	if len(p) == 0 {
		w, _ := f(v)
		return w
	}
	switch x := v.(type) {
	case map[string]any:
		k := p[0].(string)
		if len(p) == 1 {
			if w, ok := f(x[k]); ok {
				x[k] = w
			} else {
				delete(x, k)
			}
		} else {
			x[k] = replaceAt(x[k], p[1:], f)
		}
		return x
	case []any:
		i := p[0].(int)
		if len(p) == 1 {
			if w, ok := f(x[i]); ok {
				x[i] = w
			} else {
				return append(x[:i:i], x[i+1:]...)
			}
		} else {
			x[i] = replaceAt(x[i], p[1:], f)
		}
		return x
	}
	return v
}

// mutateJSON replaces or removes values of a JSON document.
func mutateJSON(t *rapid.T, src []byte) []byte {
	var v any
	if err := json.Unmarshal(src, &v); err != nil {
		panic(err)
	}
	for n := rapid.IntRange(1, 3).Draw(t, "mutations"); n > 0; n-- {
		list := [][]any{}
		paths(v, nil, func(p []any) { list = append(list, p) })
		p := pick(t, "path", list...)
		tok := pick(t, "token", jsonTokens...)
		drop := chance(t, "drop", 1, 4)
		v = replaceAt(v, p, func(x any) (any, bool) {
			var w any
			if json.Unmarshal([]byte(tok), &w) != nil {
				w = tok
			}
			return w, !drop
		})
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

var numbers = []int64{0, 1, 2, 3, 5, 6, 7, 8, 11, 15, 16, 17, 23, 24, 25, 29, 30, 31, 32, 59, 60, 63, 64, 96, 99, 100, 127, 128, 129, 240, 247, 255, 256, 257, 480, 8191, 8192, 16383, 16384, 32767, 32768, 65535, 65536,
	2097151, 2097152, 8388608, 16777215, 16777216, 268435455, 268435456, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807, -1, -2, -7, -8, -64, -127, -128, -129, -8192, -32768, -2147483648}

var number = regexp.MustCompile(`-?[0-9]+`)

// genNumber draws an edge value, or one next to what was there.
func genNumber(t *rapid.T, old int64) int64 {
	if chance(t, "near", 1, 4) {
		return old + int64(pick(t, "offset", 1, -1, 16, 128, 256, 65536))
	}
	return pick(t, "number", numbers...)
}

// renumber replaces some of the numbers in a source (those in the text of text events included).
func renumber(t *rapid.T, s string) string {
	for n := pick(t, "numbers", 1, 1, 1, 2); n > 0; n-- {
		at := number.FindAllStringIndex(s, -1)
		if len(at) == 0 {
			return s
		}
		m := pick(t, "which", at...)
		old, _ := strconv.ParseInt(s[m[0]:m[1]], 10, 64)
		s = s[:m[0]] + fmt.Sprint(genNumber(t, old)) + s[m[1]:]
	}
	return s
}

func genSource(t *rapid.T) Source {
	c := Source{JSON: rapid.Bool().Draw(t, "json"), C4: chance(t, "C4", 1, 4)}
	if chance(t, "garbage", 1, 12) {
		c.Note = "random text"
		tokens := textTokens
		if c.JSON {
			tokens = jsonTokens
		}
		for n := rapid.IntRange(0, 20).Draw(t, "tokens"); n > 0; n-- {
			c.S = append(c.S, pick(t, "token", tokens...)...)
			if rapid.Bool().Draw(t, "space") {
				c.S = append(c.S, ' ')
			}
		}
		return c
	}
	o := textOpts()
	o.Long, o.ManyTracks, o.MaxTracks, o.MaxEvents = false, false, 3, 8
	if c.JSON {
		o.Text = UTF8
	}
	renumbered := chance(t, "renumbered", 1, 3)
	if renumbered { // short, so that every number has its turn
		o.MaxTracks, o.MaxEvents = 1, 2
	}
	f := genFile(t, o)
	switch {
	case renumbered && c.JSON:
		c.Note = "renumbered JSON source"
		c.S = []byte(renumber(t, string(jsonSource(f, true))))
	case renumbered:
		l := genLayout(t)
		c.Note = "renumbered text source"
		c.S = []byte(renumber(t, joinLines(textSource(f, l, c.C4), l)))
	case !c.JSON:
		l := genLayout(t)
		c.Note = "mutated text source"
		c.S = []byte(mutateText(t, joinLines(textSource(f, l, c.C4), l), textTokens))
	case rapid.Bool().Draw(t, "structural"):
		c.Note = "mutated JSON document"
		c.S = mutateJSON(t, jsonSource(f, false))
	default:
		c.Note = "mutated JSON text"
		c.S = []byte(mutateText(t, string(jsonSource(f, true)), jsonTokens))
	}
	return c
}

func init() {
	property("C08", "source", 300000, 1500000, genSource, checkSource)
}
