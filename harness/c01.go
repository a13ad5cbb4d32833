package harness

import (
	"bytes"
	"fmt"

	"pgregory.net/rapid"
)

// C01: decoding a Standard MIDI File is faithful.

// Case is a file together with the encoding choices of its writer.
type Case struct {
	F File
	E Enc
}

func (c Case) String() string {
	b, _ := c.E.encode(c.F)
	return fmt.Sprintf("%v\n encoding: running:%v pad:%v alien:%d\n %s", c.F, c.E.Run, c.E.Pad, len(c.E.Alien), clip(fmt.Sprintf("% X", b), 3000))
}

func binaryOpts() Opts {
	return Opts{Text: AnyBytes, Packets: true, SysExHigh: true, Long: true, ManyTracks: true}
}

func genCase(t *rapid.T, o Opts) Case {
	f := genFile(t, o)
	return Case{F: f, E: genEnc(t, f)}
}

// kinds returns the number of distinct kinds of event in a file.
func (f File) kinds() int {
	m := map[string]bool{}
	for _, t := range f.Tracks {
		for _, e := range t {
			m[e.Kind] = true
		}
	}
	return len(m)
}

func (f File) has(kind string) bool {
	for _, t := range f.Tracks {
		for _, e := range t {
			if e.Kind == kind {
				return true
			}
		}
	}
	return false
}

func (c Case) classify(o *Obs) {
	o.Nontrivial(c.F.kinds() >= 3)
	n := c.F.events()
	o.Label(n > 20, "more than 20 events")
	o.Label(len(c.F.Tracks) > 1, "several tracks")
	o.Label(len(c.F.Tracks) > 100, "more than 100 tracks")
	o.Label(len(c.E.Run) > 0, "running status")
	o.Label(len(c.E.Pad) > 0, "padded VLQ")
	o.Label(len(c.E.Alien) > 0, "alien chunks")
	o.Label(c.F.Division > 0x7fff, "SMPTE division")
	o.Label(c.F.has("SysExContinuation"), "multi-packet SysEx")
	for _, t := range c.F.Tracks {
		sum := uint64(0)
		for _, e := range t {
			sum += uint64(e.Delta)
			if len(e.D) > 127 {
				o.Label(true, "variable length field over 127 bytes")
			}
		}
		o.Label(sum > 0xffffffff, "tick over 32 bits")
	}
}

func checkDecode(c Case, o *Obs) error {
	c.classify(o)
	b, raw := c.E.encode(c.F)
	if f, err := refParse(b); err != nil {
		return fmt.Errorf("HARNESS: reference parser rejects the generated file: %v", err)
	} else if d := diff(c.F, f); d != "" {
		return fmt.Errorf("HARNESS: reference parser disagrees with the generated file: %s", d)
	}
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("valid MIDI file rejected: %v", err)
	}
	got, infos, err := adapt(smf)
	if err != nil {
		return err
	}
	if d := diff(c.F, got); d != "" {
		return fmt.Errorf("decoded file differs from the encoded one: %s", d)
	}
	h := smf.MThd
	if h.Tag != "MThd" || h.Length != 6 || int(h.Tracks) != len(c.F.Tracks) {
		return fmt.Errorf("MThd: tag:%q length:%d tracks:%d, expected %d tracks", h.Tag, h.Length, h.Tracks, len(c.F.Tracks))
	}
	if !bytes.Equal(h.Bytes, b[:14]) {
		return fmt.Errorf("MThd bytes: expected % X, got % X", b[:14], []byte(h.Bytes))
	}
	if c.F.Division < 0x8000 {
		if h.SMPTETimeCode || int(h.PPQN) != c.F.Division {
			return fmt.Errorf("MThd division %04X: SMPTE:%v PPQN:%d", c.F.Division, h.SMPTETimeCode, h.PPQN)
		}
	} else {
		fps := map[int]int{0xe8: 24, 0xe7: 25, 0xe3: 29, 0xe2: 30}[c.F.Division>>8]
		if !h.SMPTETimeCode || int(h.SubFrames) != c.F.Division&0xff || int(h.FPS) != fps || h.DropFrame != (c.F.Division>>8 == 0xe3) {
			return fmt.Errorf("MThd division %04X: SMPTE:%v subframes:%d FPS:%d drop frame:%v", c.F.Division, h.SMPTETimeCode, h.SubFrames, h.FPS, h.DropFrame)
		}
	}
	for i, t := range c.F.Tracks {
		m := smf.Tracks[i]
		length := 0
		for _, r := range raw[i] {
			length += len(r)
		}
		if m.Tag != "MTrk" || int(m.TrackNumber) != i || int(m.Length) != length {
			return fmt.Errorf("track %d: tag:%q number:%d length:%d, expected length %d", i, m.Tag, m.TrackNumber, m.Length, length)
		}
		tick := uint64(0)
		for j, e := range t {
			n := infos[i][j]
			tick += uint64(e.Delta)
			if n.Tick != tick {
				return fmt.Errorf("track %d, event %d (%v): expected tick %d, got %d", i, j, e, tick, n.Tick)
			}
			if !bytes.Equal(n.Raw, raw[i][j]) {
				return fmt.Errorf("track %d, event %d (%v): expected bytes % X, got % X", i, j, e, raw[i][j], n.Raw)
			}
			if n.Status != int(e.status()) {
				return fmt.Errorf("track %d, event %d (%v): expected status %02X, got %02X", i, j, e, e.status(), n.Status)
			}
		}
	}
	return nil
}

func init() {
	property("C01", "decode", 250000, 2000000, func(t *rapid.T) Case { return genCase(t, binaryOpts()) }, checkDecode)
}
