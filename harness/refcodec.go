package harness

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// ---- reference encoder -------------------------------------------------------------------------------

// Style makes the encoding choices that the SMF format leaves open.
type Style struct {
	Running func() bool        // use running status here (only asked where it is permitted)
	Pad     func() int         // number of redundant leading 80 bytes in a variable length quantity
	Alien   func(i int) []byte // bytes of alien chunks to insert before track i
}

func plain() Style { return Style{} }

func vlqBytes(v uint32, pad int) []byte {
	b := []byte{byte(v & 0x7f)}
	for v >>= 7; v > 0; v >>= 7 {
		b = append([]byte{byte(v&0x7f) | 0x80}, b...)
	}
	for ; pad > 0 && len(b) < 4; pad-- {
		b = append([]byte{0x80}, b...)
	}
	return b
}

func (s Style) vlq(v uint32) []byte {
	pad := 0
	if s.Pad != nil {
		pad = s.Pad()
	}
	return vlqBytes(v, pad)
}

// payload returns the event data that follows the status byte for channel events, and the contents of the
// variable length field for the others.
func (e Ev) payload() []byte {
	switch e.Kind {
	case "SequenceNumber":
		return []byte{byte(e.V[0] >> 8), byte(e.V[0])}
	case "MIDIChannelPrefix", "MIDIPort", "PolyphonicPressure", "ProgramChange", "ChannelPressure":
		return []byte{byte(e.V[0])}
	case "Tempo":
		return []byte{byte(e.V[0] >> 16), byte(e.V[0] >> 8), byte(e.V[0])}
	case "SMPTEOffset":
		rr := map[int]byte{24: 0, 25: 1, 29: 2, 30: 3}[e.V[3]]
		return []byte{rr<<5 | byte(e.V[0]), byte(e.V[1]), byte(e.V[2]), byte(e.V[4]), byte(e.V[5])}
	case "TimeSignature":
		x := 0
		for 1<<x < e.V[1] {
			x++
		}
		return []byte{byte(e.V[0]), byte(x), byte(e.V[2]), byte(e.V[3])}
	case "KeySignature", "NoteOn", "NoteOff", "Controller":
		return []byte{byte(e.V[0]), byte(e.V[1])}
	case "PitchBend":
		return []byte{byte(e.V[0]>>7) & 0x7f, byte(e.V[0]) & 0x7f}
	case "EndOfTrack":
		return nil
	case "SequencerSpecificEvent":
		return append(append([]byte{}, e.M...), e.D...)
	case "SysExMessage", "SysExContinuation", "SysExEscape":
		b := append(append([]byte{}, e.M...), e.D...)
		if e.End {
			b = append(b, 0xf7)
		}
		return b
	default:
		return e.D
	}
}

// encodeTrack returns the track data and the bytes of each event.
func encodeTrack(events []Ev, s Style) ([]byte, [][]byte) {
	var out []byte
	var raw [][]byte
	running := byte(0)
	for _, e := range events {
		b := s.vlq(e.Delta)
		p := e.payload()
		status := e.status()
		if t, ok := metaTypes[e.Kind]; ok {
			b = append(b, 0xff, t)
			b = append(b, s.vlq(uint32(len(p)))...)
			running = 0
		} else if status == 0xf0 || status == 0xf7 {
			b = append(b, status)
			b = append(b, s.vlq(uint32(len(p)))...)
			running = 0
		} else {
			if running != status || s.Running == nil || !s.Running() {
				b = append(b, status)
			}
			running = status
		}
		b = append(b, p...)
		raw = append(raw, b)
		out = append(out, b...)
	}
	return out, raw
}

func chunk(tag string, data []byte) []byte {
	b := append([]byte(tag), 0, 0, 0, 0)
	binary.BigEndian.PutUint32(b[4:], uint32(len(data)))
	return append(b, data...)
}

func header(f File, tracks int) []byte {
	return chunk("MThd", []byte{byte(f.Format >> 8), byte(f.Format), byte(tracks >> 8), byte(tracks), byte(f.Division >> 8), byte(f.Division)})
}

func encode(f File, s Style) ([]byte, [][][]byte) {
	out := header(f, len(f.Tracks))
	raw := [][][]byte{}
	for i, t := range f.Tracks {
		if s.Alien != nil {
			out = append(out, s.Alien(i)...)
		}
		d, r := encodeTrack(t, s)
		out = append(out, chunk("MTrk", d)...)
		raw = append(raw, r)
	}
	return out, raw
}

// ---- reference parser --------------------------------------------------------------------------------

// refParse parses a MIDI file according to the SMF specification, with the dialect of midiasm: a header of
// exactly 6 bytes, single byte polyphonic pressure, pitch bend MSB first, no unknown META events.
func refParse(b []byte) (File, error) { return refParseWith(b, false) }

// refParseStrict also insists on minimal variable length quantities.
func refParseStrict(b []byte) (File, error) { return refParseWith(b, true) }

func refParseWith(b []byte, strict bool) (File, error) {
	f := File{}
	chunks := [][2][]byte{}
	for len(b) > 0 {
		if len(b) < 8 {
			return f, errors.New("truncated chunk header")
		}
		n := binary.BigEndian.Uint32(b[4:8])
		if uint64(n) > uint64(len(b)-8) {
			return f, errors.New("truncated chunk")
		}
		chunks = append(chunks, [2][]byte{b[:4], b[8 : 8+n]})
		b = b[8+n:]
	}
	if len(chunks) == 0 || string(chunks[0][0]) != "MThd" {
		return f, errors.New("missing MThd")
	}
	h := chunks[0][1]
	if len(h) != 6 {
		return f, errors.New("invalid MThd length")
	}
	f.Format = int(binary.BigEndian.Uint16(h))
	ntracks := int(binary.BigEndian.Uint16(h[2:]))
	f.Division = int(binary.BigEndian.Uint16(h[4:]))
	if f.Format > 2 {
		return f, errors.New("invalid format")
	}
	if f.Division&0x8000 != 0 {
		switch f.Division >> 8 {
		case 0xe8, 0xe7, 0xe3, 0xe2:
		default:
			return f, errors.New("invalid SMPTE division")
		}
	}
	for _, c := range chunks[1:] {
		if string(c[0]) != "MTrk" {
			continue
		}
		t, err := refParseTrack(c[1], strict)
		if err != nil {
			return f, fmt.Errorf("track %d: %w", len(f.Tracks), err)
		}
		f.Tracks = append(f.Tracks, t)
	}
	if len(f.Tracks) != ntracks {
		return f, errors.New("incorrect number of tracks")
	}
	return f, nil
}

var errShort = errors.New("unexpected end of track")

type cursor struct {
	b      []byte
	i      int
	strict bool
}

func (c *cursor) byte() (byte, error) {
	if c.i >= len(c.b) {
		return 0, errShort
	}
	c.i++
	return c.b[c.i-1], nil
}

func (c *cursor) vlq() (uint32, error) {
	v := uint32(0)
	for i := 0; i < 4; i++ {
		b, err := c.byte()
		if err != nil {
			return 0, err
		}
		if c.strict && i == 0 && b == 0x80 {
			return 0, errors.New("VLQ is not minimal")
		}
		v = v<<7 | uint32(b&0x7f)
		if b < 0x80 {
			return v, nil
		}
	}
	return 0, errors.New("VLQ too long")
}

func (c *cursor) take(n uint32) ([]byte, error) {
	if uint64(n) > uint64(len(c.b)-c.i) {
		return nil, errShort
	}
	d := c.b[c.i : c.i+int(n)]
	c.i += int(n)
	return d, nil
}

var metaKinds = func() map[byte]string {
	m := map[byte]string{}
	for k, v := range metaTypes {
		m[v] = k
	}
	return m
}()

var statusKinds = func() map[byte]string {
	m := map[byte]string{}
	for k, v := range channelStatus {
		m[v] = k
	}
	return m
}()

func refParseTrack(b []byte, strict bool) ([]Ev, error) {
	c := &cursor{b: b, strict: strict}
	list := []Ev{}
	running := byte(0)
	open := false
	for c.i < len(c.b) {
		delta, err := c.vlq()
		if err != nil {
			return nil, err
		}
		s, err := c.byte()
		if err != nil {
			return nil, err
		}
		e := Ev{Delta: delta}
		switch {
		case s == 0xff:
			running = 0
			t, err := c.byte()
			if err != nil {
				return nil, err
			}
			n, err := c.vlq()
			if err != nil {
				return nil, err
			}
			d, err := c.take(n)
			if err != nil {
				return nil, err
			}
			kind, ok := metaKinds[t&0x7f]
			if !ok {
				return nil, fmt.Errorf("unknown META event %02X", t)
			}
			e.Kind = kind
			if err := refMeta(&e, d); err != nil {
				return nil, err
			}

		case s == 0xf0 || s == 0xf7:
			running = 0
			n, err := c.vlq()
			if err != nil {
				return nil, err
			}
			d, err := c.take(n)
			if err != nil {
				return nil, err
			}
			end := len(d) > 0 && d[len(d)-1] == 0xf7
			switch {
			case s == 0xf0 && open:
				return nil, errors.New("SysEx message in an unterminated SysEx message")
			case s == 0xf0:
				if len(d) == 0 || d[0] == 0xf7 {
					return nil, errors.New("SysEx message without manufacturer")
				}
				e.Kind = "SysExMessage"
				k := 1
				if d[0] == 0 && len(d) >= 3 && d[1] != 0xf7 && d[2] != 0xf7 {
					k = 3
				}
				e.M, e.D, e.End = d[:k], d[k:], end
				open = !end
			case open:
				e.Kind = "SysExContinuation"
				e.D, e.End = d, end
				open = !end
			default:
				e.Kind = "SysExEscape"
				e.D = d
				end = false
			}
			if end {
				e.D = e.D[:len(e.D)-1]
			}

		default:
			if s < 0x80 {
				if running < 0x80 {
					return nil, errors.New("data byte without running status")
				}
				s = running
				c.i--
			}
			kind, ok := statusKinds[s&0xf0]
			if !ok {
				return nil, fmt.Errorf("invalid status %02X", s)
			}
			n := 2
			if kind == "PolyphonicPressure" || kind == "ProgramChange" || kind == "ChannelPressure" {
				n = 1
			}
			d, err := c.take(uint32(n))
			if err != nil {
				return nil, err
			}
			e.Kind, e.Ch = kind, int(s&0x0f)
			for _, v := range d {
				if v > 0x7f {
					return nil, errors.New("invalid data byte")
				}
				e.V = append(e.V, int(v))
			}
			if kind == "PitchBend" {
				e.V = []int{e.V[0]<<7 | e.V[1]}
			}
			running = s
		}
		list = append(list, e)
	}
	return list, nil
}

func refMeta(e *Ev, d []byte) error {
	exact := func(n int) error {
		if len(d) != n {
			return fmt.Errorf("invalid %s length %d", e.Kind, len(d))
		}
		return nil
	}
	switch e.Kind {
	case "SequenceNumber":
		if err := exact(2); err != nil {
			return err
		}
		e.V = []int{int(d[0])<<8 | int(d[1])}
	case "MIDIChannelPrefix", "MIDIPort":
		if err := exact(1); err != nil {
			return err
		}
		if max := map[string]byte{"MIDIChannelPrefix": 15, "MIDIPort": 127}[e.Kind]; d[0] > max {
			return fmt.Errorf("invalid %s", e.Kind)
		}
		e.V = []int{int(d[0])}
	case "Tempo":
		if err := exact(3); err != nil {
			return err
		}
		e.V = []int{int(d[0])<<16 | int(d[1])<<8 | int(d[2])}
	case "SMPTEOffset":
		if err := exact(5); err != nil {
			return err
		}
		rate := []int{24, 25, 29, 30}[d[0]>>5&3]
		e.V = []int{int(d[0] & 0x1f), int(d[1]), int(d[2]), rate, int(d[3]), int(d[4])}
		if e.V[0] > 24 || e.V[1] > 59 || e.V[2] > 59 || e.V[4] >= rate || e.V[5] > 100 {
			return errors.New("invalid SMPTE offset")
		}
	case "TimeSignature":
		if err := exact(4); err != nil {
			return err
		}
		if d[1] > 7 {
			return errors.New("invalid time signature")
		}
		e.V = []int{int(d[0]), 1 << d[1], int(d[2]), int(d[3])}
	case "KeySignature":
		if err := exact(2); err != nil {
			return err
		}
		e.V = []int{int(int8(d[0])), int(d[1])}
		if e.V[0] < -7 || e.V[0] > 7 || e.V[1] > 1 {
			return errors.New("invalid key signature")
		}
	case "EndOfTrack":
	case "SequencerSpecificEvent":
		k := 1
		if len(d) > 0 && d[0] == 0 {
			k = 3
		}
		if len(d) < k {
			return errors.New("invalid SequencerSpecificEvent")
		}
		e.M, e.D = d[:k], d[k:]
	default:
		e.D = d
	}
	return nil
}
