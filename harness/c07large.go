package harness

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"time"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/click"
	"github.com/transcriptaze/midiasm/ops/notes"
	"github.com/transcriptaze/midiasm/ops/transpose"
)

// C07, large files: time and memory grow in proportion to the input.

type LargeCase struct {
	Shape string
	N     int
}

func (c LargeCase) String() string { return fmt.Sprintf("%s of size %d", c.Shape, c.N) }

var shapes = map[string]func(n int) []byte{
	"notes": func(n int) []byte {
		return repeated(n, func(i int) []byte { return []byte{1, 0x90 | byte(i/2%16), byte(i / 2 % 128), byte(64 * (1 - i%2))} })
	},
	"notes that do not end": func(n int) []byte {
		return repeated(n, func(i int) []byte { return []byte{1, 0x90 | byte(i%16), byte(i / 16 % 128), 64} })
	},
	"NoteOffs without a note": func(n int) []byte {
		return repeated(n, func(i int) []byte { return []byte{1, 0x80 | byte(i%16), byte(i / 16 % 128), 64} })
	},
	"running status": func(n int) []byte {
		return repeated(n, func(i int) []byte {
			if i == 0 {
				return []byte{0, 0x90, 60, 64}
			}
			return []byte{1, 60, byte(64 * (1 - i%2))}
		})
	},
	"tempo changes and notes": func(n int) []byte {
		return repeated(n, func(i int) []byte {
			switch i % 3 {
			case 0:
				return []byte{1, 0xff, 0x51, 3, byte(i>>16) & 7, byte(i >> 8), byte(i) | 1}
			case 1:
				return []byte{1, 0x90, 60, 64}
			}
			return []byte{1, 0x80, 60, 64}
		})
	},
	"tempo changes and notes in two tracks": func(n int) []byte {
		b := header(File{Format: 1, Division: 96}, 2)
		b = append(b, repeated(n/2, func(i int) []byte { return []byte{1, 0xff, 0x51, 3, byte(i>>16) & 7, byte(i >> 8), byte(i) | 1} })[14:]...)
		return append(b, repeated(n/2, func(i int) []byte { return []byte{1, 0x90, 60, byte(64 * (1 - i%2))} })[14:]...)
	},
	"time signatures": func(n int) []byte {
		return repeated(n, func(i int) []byte { return []byte{0x82, 0x40, 0xff, 0x58, 4, byte(2 + i%3), 2, 24, 8} })
	},
	"key signatures and notes": func(n int) []byte {
		return repeated(n, func(i int) []byte {
			if i%2 == 0 {
				return []byte{1, 0xff, 0x59, 2, byte(i%15 - 7), 0}
			}
			return []byte{1, 0x90, 60, byte(i % 128)}
		})
	},
	"bank selects": func(n int) []byte {
		return repeated(n, func(i int) []byte {
			switch i % 3 {
			case 0:
				return []byte{0, 0xb0, 0, byte(i % 128)}
			case 1:
				return []byte{0, 0xb0, 32, byte(i % 128)}
			}
			return []byte{1, 0xc0, byte(i % 128)}
		})
	},
	"texts": func(n int) []byte {
		return repeated(n, func(i int) []byte { return append([]byte{0, 0xff, byte(1 + i%9), 8}, "words..."...) })
	},
	"SysEx packets": func(n int) []byte {
		return repeated(n, func(i int) []byte {
			switch {
			case i == 0:
				return []byte{0, 0xf0, 2, 0x41, 1}
			case i == n-1:
				return []byte{0, 0xf7, 2, 1, 0xf7}
			}
			return []byte{0, 0xf7, 2, 1, 2}
		})
	},
	"SysEx messages": func(n int) []byte {
		return repeated(n, func(i int) []byte { return []byte{0, 0xf0, 5, 0, 0x7f, byte(i % 128), 1, 0xf7} })
	},
	"one long text": func(n int) []byte {
		return repeated(1, func(int) []byte {
			return append(append([]byte{0, 0xff, 1}, vlqBytes(uint32(8*n), 0)...), bytes.Repeat([]byte("12345678"), n)...)
		})
	},
	"one long SysEx message": func(n int) []byte {
		return repeated(1, func(int) []byte {
			b := append([]byte{0, 0xf0}, vlqBytes(uint32(8*n+2), 0)...)
			return append(append(append(b, 0x41), bytes.Repeat([]byte{1, 2, 3, 4, 5, 6, 7, 8}, n)...), 0xf7)
		})
	},
	"one long sequencer specific event": func(n int) []byte {
		return repeated(1, func(int) []byte {
			b := append([]byte{0, 0xff, 0x7f}, vlqBytes(uint32(8*n+1), 0)...)
			return append(append(b, 0x41), bytes.Repeat([]byte{1, 2, 3, 4, 5, 6, 7, 8}, n)...)
		})
	},
	"tracks": func(n int) []byte {
		n = min(n, 65535)
		b := header(File{Format: 1, Division: 96}, n)
		return append(b, bytes.Repeat(chunk("MTrk", []byte{0, 0xff, 0x2f, 0}), n)...)
	},
	"tracks with notes and tempo changes": func(n int) []byte {
		n = min(n/4, 65535)
		b := header(File{Format: 1, Division: 96}, n)
		return append(b, bytes.Repeat(chunk("MTrk", []byte{1, 0x90, 60, 64, 1, 0xff, 0x51, 3, 7, 0, 0, 1, 0x80, 60, 64, 0, 0xff, 0x2f, 0}), n)...)
	},
	"tempo changes and tracks": func(n int) []byte {
		k := min(n/4, 65534)
		b := header(File{Format: 1, Division: 96}, k+1)
		b = append(b, repeated(n/2, func(i int) []byte { return []byte{1, 0xff, 0x51, 3, byte(i>>16) & 7, byte(i >> 8), byte(i) | 1} })[14:]...)
		return append(b, bytes.Repeat(chunk("MTrk", []byte{0x87, 0xff, 0x7f, 0x90, 60, 64, 1, 0x80, 60, 64, 0, 0xff, 0x2f, 0}), k)...)
	},
	"chunks of unknown type": func(n int) []byte {
		b := header(File{Format: 1, Division: 96}, 1)
		b = append(b, bytes.Repeat(chunk("XFIH", []byte{1, 2, 3, 4}), n)...)
		return append(b, chunk("MTrk", []byte{0, 0xff, 0x2f, 0})...)
	},
	"long deltas": func(n int) []byte {
		return repeated(n, func(i int) []byte { return []byte{0xff, 0xff, 0xff, 0x7f, 0x90, 60, byte(64 * (1 - i%2))} })
	},
	"truncated track": func(n int) []byte {
		b := repeated(n, func(i int) []byte { return []byte{1, 0x90, 60, 64} })
		return b[:len(b)-6]
	},
}

// repeated is a file of one track with n events.
func repeated(n int, event func(i int) []byte) []byte {
	d := []byte{}
	for i := 0; i < n; i++ {
		d = append(d, event(i)...)
	}
	return append(header(File{Format: 0, Division: 96}, 1), chunk("MTrk", append(d, 0, 0xff, 0x2f, 0))...)
}

var stages = []string{"decode", "validate", "export", "encode", "notes", "notes as JSON", "click", "transpose", "disassemble"}

// stage runs an operation and returns the time and memory that it took.
func stage(name string, b []byte, smf **midi.SMF) (time.Duration, uint64, error) {
	before, start := allocated(), time.Now()
	var err error
	switch name {
	case "decode":
		*smf, err = decode(b)
	case "validate":
		(*smf).Validate()
	case "disassemble":
		_, err = disassembleText(*smf)
	case "export":
		_, err = exportJSON(*smf)
	case "encode":
		_, err = reencode(*smf)
	case "notes", "notes as JSON":
		n := notes.Notes{Writer: io.Discard, JSON: name != "notes"}
		n.Execute(*smf)
	case "click":
		k := click.ClickTrack{Writer: io.Discard}
		k.Execute(*smf)
	case "transpose":
		x := transpose.Transpose{}
		x.Execute(*smf, 5)
	}
	return time.Since(start), allocated() - before, err
}

func checkLarge(c LargeCase, o *Obs) error {
	o.Nontrivial(true)
	o.Label(true, c.Shape)
	var f, g *midi.SMF
	var large, small []byte
	for i, s := range stages {
		switch {
		case i == 0:
			large, small = shapes[c.Shape](c.N), shapes[c.Shape](c.N/8)
		case s == "disassemble": // a lot slower than everything else
			large, small = shapes[c.Shape](c.N/5), shapes[c.Shape](c.N/40)
			f, _ = decode(large)
			g, _ = decode(small)
		}
		t1, m1, err1 := stage(s, large, &f)
		t2, m2, _ := stage(s, small, &g)
		if os.Getenv("VP_VERBOSE") != "" {
			fmt.Printf("LARGE %-40s %-14s %8d bytes %8v %6.1f bytes/byte; an eighth: %8v %6.1f\n", c.Shape, s, len(large), t1.Round(time.Millisecond), float64(m1)/float64(len(large)), t2.Round(time.Millisecond), float64(m2)/float64(len(small)))
		}
		if limit := uint64(16<<20) + 24*m2 + 100*uint64(len(large)); m1 > limit {
			return fmt.Errorf("%s: %d bytes allocated %d bytes of memory, %d bytes allocated %d", s, len(large), m1, len(small), m2)
		}
		for i := 0; t1 > 3*time.Second && t1 > 24*t2; i++ { // not a matter of chance
			if i == 3 {
				return fmt.Errorf("%s: %d bytes took %v, %d bytes took %v", s, len(large), t1, len(small), t2)
			}
			t1, _, _ = stage(s, large, &f)
			t3, _, _ := stage(s, small, &g)
			t2 = max(t2, t3)
		}
		if s == "decode" && err1 != nil {
			return nil
		}
	}
	return nil
}

func init() {
	enumeration("C07", "large", func(tier string, yield func(LargeCase)) {
		names := []string{}
		for k := range shapes {
			names = append(names, k)
		}
		sortStrings(names)
		sizes := []int{200000}
		if tier == "thorough" {
			sizes = []int{200000, 500000}
		}
		for _, n := range sizes {
			for _, k := range names {
				yield(LargeCase{k, n})
			}
		}
	}, checkLarge)
}
