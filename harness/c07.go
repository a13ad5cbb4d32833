package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"runtime"
	"strings"
	"time"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/click"
	"github.com/transcriptaze/midiasm/ops/notes"
	"github.com/transcriptaze/midiasm/ops/transpose"
	"pgregory.net/rapid"
)

// Bytes are the bytes of a file that may or may not be a MIDI file.
type Bytes struct {
	B    []byte
	Note string // how it was made
}

func (c Bytes) String() string {
	s := fmt.Sprintf("%d bytes (%s): %s", len(c.B), c.Note, clip(fmt.Sprintf("% X", c.B), 3000))
	return s
}

var magicBytes = []byte{0x00, 0x01, 0x03, 0x04, 0x7e, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xb0, 0xc0, 0xd0, 0xe0, 0xef, 0xf0, 0xf1, 0xf2, 0xf7, 0xf8, 0xfe, 0xff, 0x20, 0x2f, 0x51, 0x54, 0x58, 0x59}

var magicWords = [][]byte{
	{0xff, 0xff, 0xff, 0xff}, {0x80, 0x80, 0x80, 0x80}, {0x80, 0x80, 0x80, 0x80, 0x00}, {0xff, 0xff, 0xff, 0x7f}, {0x8f, 0xff, 0xff, 0xff, 0x7f}, {0x7f, 0xff, 0xff, 0xff},
	{0x00, 0xff, 0x2f, 0x00}, {0xff, 0x51, 0x03}, {0xff, 0x58, 0x04}, {0xff, 0x54, 0x05}, {0xff, 0x59, 0x02}, {0xff, 0x00, 0x02}, {0xff, 0x7f, 0x00}, {0xff, 0x7f, 0x02, 0x00, 0x00},
	{0xf0, 0x01, 0xf7}, {0xf0, 0x00}, {0xf7, 0x00}, {0x00, 0xf0, 0x03, 0x43, 0x12, 0x00}, {0xf0, 0x02, 0x00, 0xf7}, []byte("MTrk"), []byte("MThd"), {0x4d, 0x54, 0x72, 0x6b, 0x00, 0x00, 0x00, 0x00},
	{0x00, 0xff, 0x20, 0x01, 0x10}, {0x00, 0xff, 0x21, 0x01, 0x80}, {0xff, 0x60, 0x00}, {0x00, 0xff, 0x51, 0x00}, {0x00, 0xff, 0x58, 0x00}, {0x00, 0xff, 0x2f, 0x81, 0x00},
}

// mutate applies random edits to bytes.
func mutate(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	n := rapid.IntRange(1, 5).Draw(t, "mutations")
	for ; n > 0; n-- {
		i := 0
		if len(b) > 0 {
			if chance(t, "in-header", 1, 6) {
				i = rapid.IntRange(0, min(len(b)-1, 22)).Draw(t, "at")
			} else {
				i = rapid.IntRange(0, len(b)-1).Draw(t, "at")
			}
		}
		switch op := rapid.IntRange(0, 8).Draw(t, "op"); {
		case op == 0 && len(b) > 0:
			b[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case op == 1 && len(b) > 0:
			b[i] = pick(t, "magic", magicBytes...)
		case op == 2 && len(b) > 0:
			b[i] = rapid.Byte().Draw(t, "byte")
		case op == 3: // delete
			k := min(len(b), i+rapid.IntRange(1, 8).Draw(t, "delete"))
			b = append(b[:i], b[k:]...)
		case op == 4: // insert
			ins := pick(t, "word", magicWords...)
			b = append(b[:i], append(append([]byte{}, ins...), b[i:]...)...)
		case op == 5: // overwrite
			copy(b[i:], pick(t, "word", magicWords...))
		case op == 6: // duplicate
			k := min(len(b), i+rapid.IntRange(1, 30).Draw(t, "duplicate"))
			b = append(b[:k], append(append([]byte{}, b[i:k]...), b[k:]...)...)
		case op == 7: // truncate
			b = b[:i]
		default:
			b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "append")...)
		}
	}
	return b
}

// relength corrects the chunk lengths and the number of tracks after a mutation, so that it is the
// contents of the chunks that are wrong.
func relength(b []byte) []byte {
	b = append([]byte{}, b...)
	tracks := 0
	marks := []int{}
	for i := 14; i+8 <= len(b); i++ {
		if string(b[i:i+4]) == "MTrk" {
			marks = append(marks, i)
			tracks++
			i += 7
		}
	}
	for k, i := range marks {
		end := len(b)
		if k+1 < len(marks) {
			end = marks[k+1]
		}
		binary.BigEndian.PutUint32(b[i+4:], uint32(end-i-8))
	}
	if len(b) >= 14 {
		binary.BigEndian.PutUint16(b[10:], uint16(tracks))
	}
	return b
}

func genMangled(t *rapid.T) Bytes {
	switch rapid.IntRange(0, 9).Draw(t, "how") {
	case 0: // anything
		return Bytes{rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes"), "random bytes"}
	case 1: // a valid header and random bytes
		h := header(File{Format: rapid.IntRange(0, 3).Draw(t, "format"), Division: genDivision(t, Opts{})}, rapid.IntRange(0, 3).Draw(t, "tracks"))
		return Bytes{append(h, rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes")...), "random bytes after a header"}
	case 2: // random bytes in a track
		h := header(File{Format: 1, Division: 480}, 1)
		n := rapid.IntRange(0, 60).Draw(t, "n")
		b := []byte{}
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 3).Draw(t, "byte-class") {
			case 0:
				b = append(b, rapid.Byte().Draw(t, "byte"))
			case 1:
				b = append(b, pick(t, "magic", magicBytes...))
			case 2:
				b = append(b, pick(t, "word", magicWords...)...)
			default:
				b = append(b, byte(rapid.IntRange(0, 127).Draw(t, "byte")))
			}
		}
		return Bytes{append(h, chunk("MTrk", b)...), "random bytes in a track"}
	default:
		c := genCase(t, Opts{Text: AnyBytes, Packets: true, SysExHigh: true, MaxTracks: 3, MaxEvents: 12, NoEOT: true})
		b, _ := c.E.encode(c.F)
		b = mutate(t, b)
		how := "mutated file"
		if chance(t, "relength", 2, 3) {
			b = relength(b)
			how = "mutated file with corrected chunk lengths"
		}
		return Bytes{b, how}
	}
}

// C07: any bytes at all are handled, by the decoder and by everything downstream of it.

type count struct{ n int }

func (c *count) Write(b []byte) (int, error) { c.n += len(b); return len(b), nil }

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// stillRunning returns how many goroutines there are in excess of those before, once they have had time to end.
func stillRunning(before int) int {
	for i := 0; i < 300; i++ {
		if runtime.NumGoroutine() <= before {
			return 0
		}
		if i < 20 {
			runtime.Gosched()
		} else {
			time.Sleep(10 * time.Millisecond)
		}
	}
	return runtime.NumGoroutine() - before
}

func downstream(smf *midi.SMF) error {
	if smf == nil || smf.MThd == nil {
		return fmt.Errorf("decoder returned no error and no file")
	}
	smf.Validate()
	if _, err := disassembleText(smf); err != nil {
		return fmt.Errorf("accepted file cannot be disassembled: %v", err)
	}
	if _, err := exportJSON(smf); err != nil {
		return fmt.Errorf("accepted file cannot be exported: %v", err)
	}
	if _, err := reencode(smf); err != nil {
		return fmt.Errorf("accepted file cannot be encoded: %v", err)
	}
	n := notes.Notes{Writer: io.Discard}
	n.Execute(smf) // may well refuse, but must not panic or hang
	n = notes.Notes{Writer: io.Discard, JSON: true}
	n.Execute(smf)
	k := click.ClickTrack{Writer: io.Discard}
	k.Execute(smf)
	x := transpose.Transpose{}
	x.Execute(smf, 5)
	return nil
}

func checkRobust(c Bytes, o *Obs) error {
	running := runtime.NumGoroutine()
	if err := checkRobust1(c, o); err != nil {
		return err
	}
	if n := stillRunning(running); n > 0 {
		return fmt.Errorf("%d goroutines are left running", n)
	}
	return nil
}

func checkRobust1(c Bytes, o *Obs) error {
	o.Label(true, c.Note)
	before := allocated()
	smf, err := decode(c.B)
	used := allocated() - before
	if limit := uint64(8<<20) + 3000*uint64(len(c.B)); used > limit {
		return fmt.Errorf("decoding %d bytes allocated %d bytes", len(c.B), used)
	}
	o.Label(err == nil, "accepted")
	o.Label(err != nil, "rejected")
	o.Nontrivial(len(c.B) > 14)
	if err != nil {
		return nil
	}
	return downstream(smf)
}

// C09: a file is accepted exactly if it is well formed, and then read as it should be.

func checkAcceptance(c Bytes, o *Obs) error {
	want, bad := refParse(c.B)
	o.Label(bad == nil, "well formed")
	o.Label(bad != nil, "malformed")
	o.Label(true, c.Note)
	if bad != nil {
		w := strings.Fields(lastWords(bad.Error()))
		for len(w) > 3 || len(w) > 1 && strings.Trim(w[len(w)-1], "0123456789ABCDEF") == "" {
			w = w[:len(w)-1]
		}
		o.Label(true, "malformed: "+strings.Join(w, " "))
	}
	o.Nontrivial(len(c.B) > 14)
	smf, err := decode(c.B)
	if bad != nil {
		if err == nil {
			return fmt.Errorf("malformed file (%v) accepted: % X", bad, c.B)
		}
		if smf != nil {
			return fmt.Errorf("decoder returned both a file and an error (%v)", err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("well formed file rejected: %v: % X", err, c.B)
	}
	got, _, err := adapt(smf)
	if err != nil {
		return err
	}
	if d := diff(want, got); d != "" {
		return fmt.Errorf("decoded file differs: %s", d)
	}
	return nil
}

func lastWords(s string) string {
	if i := bytes.LastIndex([]byte(s), []byte(": ")); i >= 0 {
		return s[i+2:]
	}
	return s
}

// rawEvents are events that are wrong, or nearly so, in one particular way.
func genRawEvent(t *rapid.T) []byte {
	delta := vlqBytes(rapid.Uint32Range(0, 300).Draw(t, "delta"), 0)
	data := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(gen7(t, "data"))
		}
		return b
	}
	meta := func(kind byte, d []byte) []byte {
		return append(append([]byte{0xff, kind}, vlqBytes(uint32(len(d)), 0)...), d...)
	}
	ev := []byte{}
	switch rapid.IntRange(0, 11).Draw(t, "raw-class") {
	case 0: // meta event with any length
		kind := pick(t, "meta", byte(0x00), 0x20, 0x21, 0x2f, 0x51, 0x54, 0x58, 0x59, 0x7f, 0x01, 0x09)
		ev = meta(kind, data(rapid.IntRange(0, 8).Draw(t, "n")))
	case 1: // any meta type
		ev = meta(rapid.Byte().Draw(t, "meta"), data(rapid.IntRange(0, 5).Draw(t, "n")))
	case 2: // SMPTE offset near its limits
		ev = meta(0x54, []byte{pick(t, "h", byte(0), 23, 24, 25, 31, 32+24, 32+25, 64, 96+24, 96+25, 128, 255), pick(t, "m", byte(0), 59, 60, 255), pick(t, "s", byte(0), 59, 60, 128), pick(t, "f", byte(0), 23, 24, 25, 28, 29, 30, 31, 255), pick(t, "ff", byte(0), 99, 100, 101, 255)})
	case 3: // time signature
		ev = meta(0x58, []byte{rapid.Byte().Draw(t, "n"), pick(t, "d", byte(0), 1, 2, 6, 7, 8, 9, 31, 32, 64, 255), rapid.Byte().Draw(t, "t"), rapid.Byte().Draw(t, "b")})
	case 4: // key signature
		ev = meta(0x59, []byte{pick(t, "a", byte(0), 7, 8, 9, 0xf9, 0xf8, 0xf7, 0x7f, 0x80, 0xff), pick(t, "k", byte(0), 1, 2, 3, 0x7f, 0x80, 0xff)})
	case 5: // one byte values
		ev = meta(pick(t, "meta", byte(0x20), 0x21), []byte{pick(t, "v", byte(0), 15, 16, 17, 127, 128, 255)})
	case 6: // channel event with a data byte that is no such thing
		status := byte(rapid.IntRange(0x80, 0xef).Draw(t, "status"))
		n := 2
		if k := status & 0xf0; k == 0xa0 || k == 0xc0 || k == 0xd0 {
			n = 1
		}
		d := data(n)
		if rapid.Bool().Draw(t, "bad-data") {
			d[rapid.IntRange(0, n-1).Draw(t, "which")] |= 0x80
		}
		ev = append([]byte{status}, d...)
	case 7: // any status
		ev = append([]byte{byte(rapid.IntRange(0xf0, 0xff).Draw(t, "status"))}, data(rapid.IntRange(0, 3).Draw(t, "n"))...)
	case 8: // running status, which may not be available
		ev = data(rapid.IntRange(1, 2).Draw(t, "n"))
	case 9: // SysEx
		d := genBytes(t, "sysex", false)
		if chance(t, "terminated", 1, 2) {
			d = append(d, 0xf7)
		}
		ev = append(append([]byte{pick(t, "f0", byte(0xf0), 0xf7)}, vlqBytes(uint32(len(d)), 0)...), d...)
	case 10: // length off by a little, or by a lot
		d := data(rapid.IntRange(0, 6).Draw(t, "n"))
		n := pick(t, "length", uint32(len(d)+1), uint32(len(d)+2), 127, 128, 0x3fff, 0x0fffffff)
		ev = append([]byte{0xff, pick(t, "meta", byte(0x01), 0x03, 0x7f, 0x51)}, vlqBytes(n, 0)...)
		if chance(t, "sysex", 1, 3) {
			ev = append([]byte{pick(t, "f0", byte(0xf0), 0xf7)}, vlqBytes(n, 0)...)
		}
		ev = append(ev, d...)
	default: // long VLQ
		delta = append(tile([]byte{pick(t, "vlq", byte(0x80), 0x81, 0xff)}, rapid.IntRange(1, 6).Draw(t, "vlq-length")), byte(gen7(t, "vlq-last")))
		ev = []byte{0x90, 0x40, 0x40}
	}
	b := append(delta, ev...)
	if chance(t, "cut", 1, 8) {
		b = b[:rapid.IntRange(0, len(b)).Draw(t, "cut-at")]
	}
	return b
}

func genRawFile(t *rapid.T) Bytes {
	f := genFile(t, Opts{Text: AnyBytes, Packets: true, MinTracks: 1, MaxTracks: 3, MaxEvents: 6, NoEOT: true})
	k := rapid.IntRange(0, len(f.Tracks)-1).Draw(t, "track")
	e := genEnc(t, f)
	e.Alien = nil
	s := e.style()
	out := header(f, len(f.Tracks))
	for i, tr := range f.Tracks {
		d, raw := encodeTrack(tr, s)
		if i == k {
			at := rapid.IntRange(0, len(raw)).Draw(t, "at")
			d = nil
			for j, r := range raw {
				if j == at {
					d = append(d, genRawEvent(t)...)
				}
				d = append(d, r...)
			}
			if at == len(raw) {
				d = append(d, genRawEvent(t)...)
			}
		}
		out = append(out, chunk("MTrk", d)...)
	}
	return Bytes{out, "valid file with a raw event"}
}

// Prefix is a valid file cut short.
type Prefix struct {
	Case
	N int
}

func (c Prefix) String() string { return fmt.Sprintf("first %d bytes of %v", c.N, c.Case) }

func init() {
	property("C07", "mangled", 60000, 1000000, genMangled, checkRobust)
	property("C07", "valid", 8000, 200000, func(t *rapid.T) Bytes {
		c := genCase(t, Opts{Text: AnyBytes, Packets: true, SysExHigh: true, MaxTracks: 4, MaxEvents: 15, NoEOT: true, ManyTracks: true})
		b, _ := c.E.encode(c.F)
		return Bytes{b, "valid file"}
	}, checkRobust)
	property("C09", "mangled", 240000, 2000000, genMangled, checkAcceptance)
	property("C07", "raw-event", 30000, 800000, genRawFile, checkRobust)
	property("C09", "raw-event", 300000, 2000000, genRawFile, checkAcceptance)
	property("C09", "truncated", 10000, 200000, func(t *rapid.T) Prefix {
		c := genCase(t, Opts{Text: AnyBytes, Packets: true, SysExHigh: true, MinTracks: 1, MaxTracks: 3, MaxEvents: 8})
		c.E.Alien = nil
		b, _ := c.E.encode(c.F)
		return Prefix{c, rapid.IntRange(0, len(b)-1).Draw(t, "prefix")}
	}, func(c Prefix, o *Obs) error {
		o.Nontrivial(true)
		b, _ := c.E.encode(c.F)
		if _, err := decode(b[:c.N]); err == nil {
			return fmt.Errorf("file cut short after %d of %d bytes accepted", c.N, len(b))
		}
		return nil
	})
}
