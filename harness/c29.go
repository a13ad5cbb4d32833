package harness

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/context"
	"github.com/transcriptaze/midiasm/midi/events"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
	"github.com/transcriptaze/midiasm/midi/lib"
	"pgregory.net/rapid"
)

// C29: a file that is put together from events made with the constructors is the file that they describe.

// makeEvent makes an event of the model.
func makeEvent(e Ev, tick uint64, x Context, raw []byte) events.IEvent {
	d, ch, s := lib.Delta(e.Delta), lib.Channel(e.Ch), string(e.D)
	v := func(i int) uint8 { return uint8(e.V[i]) }
	switch e.Kind {
	case "SequenceNumber":
		return metaevent.MakeSequenceNumber(tick, d, uint16(e.V[0]), raw...)
	case "Text":
		return metaevent.MakeText(tick, d, s, raw...)
	case "Copyright":
		return metaevent.MakeCopyright(tick, d, s, raw...)
	case "TrackName":
		return metaevent.MakeTrackName(tick, d, s, raw...)
	case "InstrumentName":
		return metaevent.MakeInstrumentName(tick, d, s, raw...)
	case "Lyric":
		return metaevent.MakeLyric(tick, d, s, raw...)
	case "Marker":
		return metaevent.MakeMarker(tick, d, s, raw...)
	case "CuePoint":
		return metaevent.MakeCuePoint(tick, d, s, raw...)
	case "ProgramName":
		return metaevent.MakeProgramName(tick, d, s, raw...)
	case "DeviceName":
		return metaevent.MakeDeviceName(tick, d, s, raw...)
	case "MIDIChannelPrefix":
		return metaevent.MakeMIDIChannelPrefix(tick, d, v(0), raw...)
	case "MIDIPort":
		return metaevent.MakeMIDIPort(tick, d, v(0), raw...)
	case "EndOfTrack":
		return metaevent.MakeEndOfTrack(tick, d, raw...)
	case "Tempo":
		return metaevent.MakeTempo(tick, d, uint32(e.V[0]), raw...)
	case "SMPTEOffset":
		return metaevent.MakeSMPTEOffset(tick, d, v(0), v(1), v(2), v(3), v(4), v(5), raw...)
	case "TimeSignature":
		return metaevent.MakeTimeSignature(tick, d, v(0), v(1), v(2), v(3), raw...)
	case "KeySignature":
		return metaevent.MakeKeySignature(tick, d, int8(e.V[0]), lib.KeyType(e.V[1]), raw...)
	case "SequencerSpecificEvent":
		return metaevent.MakeSequencerSpecificEvent(tick, d, lib.LookupManufacturer(e.M), e.D, raw...)
	case "NoteOn":
		return midievent.MakeNoteOn(tick, e.Delta, ch, midievent.Note{Value: v(0), Name: x.Name, Alias: x.Alias}, v(1), raw...)
	case "NoteOff":
		return midievent.MakeNoteOff(tick, e.Delta, ch, midievent.Note{Value: v(0), Name: x.Name, Alias: x.Alias}, v(1), raw...)
	case "PolyphonicPressure":
		return midievent.MakePolyphonicPressure(tick, e.Delta, ch, v(0), raw...)
	case "Controller":
		return midievent.MakeController(tick, e.Delta, ch, lib.LookupController(v(0)), v(1), raw...)
	case "ProgramChange":
		return midievent.MakeProgramChange(tick, e.Delta, ch, uint16(x.Bank), v(0), raw...)
	case "ChannelPressure":
		return midievent.MakeChannelPressure(tick, e.Delta, ch, v(0), raw...)
	case "PitchBend":
		return midievent.MakePitchBend(tick, e.Delta, ch, uint16(e.V[0]), raw...)
	case "SysExMessage":
		if e.End {
			return sysex.MakeSysExSingleMessage(tick, e.Delta, lib.LookupManufacturer(e.M), e.D, raw...)
		}
		return sysex.MakeSysExMessage(tick, e.Delta, lib.LookupManufacturer(e.M), e.D, raw...)
	case "SysExContinuation":
		if e.End {
			return sysex.MakeSysExContinuationEndMessage(tick, e.Delta, e.D, raw...)
		}
		return sysex.MakeSysExContinuationMessage(tick, e.Delta, e.D, raw...)
	case "SysExEscape":
		return sysex.MakeSysExEscapeMessage(tick, e.Delta, e.D, raw...)
	}
	panic("no such event " + e.Kind)
}

// makeFile makes a file of the model.
func makeFile(f File, c4 bool) *midi.SMF {
	h := midi.MakeMThd(uint16(f.Format), uint16(len(f.Tracks)), uint16(f.Division), header(f, len(f.Tracks))...)
	_, raw := Enc{}.encode(f)
	smf := &midi.SMF{MThd: &h}
	for i, t := range f.Tracks {
		mtrk, err := midi.NewMTrk()
		if err != nil {
			panic(err)
		}
		mtrk.TrackNumber, mtrk.Context = lib.TrackNumber(i), context.NewContext()
		tick := uint64(0)
		for j, x := range contexts(t, c4) {
			tick += uint64(t[j].Delta)
			mtrk.Events = append(mtrk.Events, events.NewEvent(makeEvent(t[j], tick, x, raw[i][j])))
		}
		smf.Tracks = append(smf.Tracks, mtrk)
	}
	return smf
}

var madeTools = sync.OnceValue(newTools)

func checkMade(c TextCase, o *Obs) error {
	c.classify(o)
	setMiddleC(c.C4)
	defer setMiddleC(false)
	made := makeFile(c.F, c.C4)
	got, infos, err := adapt(made)
	if err != nil {
		return err
	}
	if d := diff(c.F, got); d != "" {
		return fmt.Errorf("made file differs: %s", d)
	}
	for i, t := range c.F.Tracks {
		tick := uint64(0)
		for j, e := range t {
			tick += uint64(e.Delta)
			if n := infos[i][j]; n.Tick != tick || n.Status != int(e.status()) {
				return fmt.Errorf("track %d, event %d (%v): made at tick %d with status %02X, has tick %d and status %02X", i, j, e, tick, e.status(), n.Tick, n.Status)
			}
		}
	}
	b, err := reencode(made)
	if err != nil {
		return fmt.Errorf("made file cannot be encoded: %v", err)
	}
	if err := same("encoded file", c.F, b); err != nil {
		return err
	}
	for i := range made.Tracks { // a track on its own
		chunk, err := midifile.EncodeMTrk(*made.Tracks[i])
		if err != nil || !bytes.Contains(b, chunk) {
			return fmt.Errorf("track %d on its own is encoded as % X (%v)", i, chunk, err)
		}
	}
	smf, err := decode(b)
	if err != nil {
		return fmt.Errorf("encoded file cannot be decoded: %v", err)
	}
	k := madeTools()
	for op, name := range operationNames {
		if name == "decode" {
			continue
		}
		want, got := performOn(k, smf, op), performOn(k, made, op)
		if name == "disassemble" || name == "tracks" {
			want, got = stripHex(want), stripHex(got)
		}
		if want != got {
			return fmt.Errorf("%s of the made file differs from that of the decoded file: %s", name, firstDifference(want, got))
		}
	}
	if after, err := reencode(made); err != nil || !bytes.Equal(b, after) {
		return fmt.Errorf("the operations altered the made file (%v)", err)
	}
	return nil
}

func firstDifference(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("line %d: expected %q, got %q", i+1, clip(a[i], 1000), clip(b[i], 1000))
		}
	}
	return fmt.Sprintf("expected %d lines, got %d", len(a), len(b))
}

// A delta that a MIDI file cannot hold.
type LongDelta struct {
	E     Ev
	Delta uint32
}

func checkLongDelta(c LongDelta, o *Obs) error {
	o.Nontrivial(true)
	o.Label(true, "delta over 28 bits")
	e := c.E
	e.Delta = c.Delta
	made := makeFile(File{Format: 0, Division: 480, Tracks: [][]Ev{{e, {Kind: "EndOfTrack"}}}}, false)
	if b, err := reencode(made); err == nil {
		return fmt.Errorf("encoded as % X", b)
	}
	return nil
}

func init() {
	property("C29", "made", 10000, 150000, func(t *rapid.T) TextCase {
		o := binaryOpts()
		o.MaxTracks = 4
		c := genTextCase(t, o)
		c.E = Enc{}
		return c
	}, checkMade)
	enumeration("C29", "sweep", func(tier string, yield func(TextCase)) { sweepTextCases(tier, yield) }, checkMade)
	property("C29", "delta", 4000, 40000, func(t *rapid.T) LongDelta {
		return LongDelta{E: genEvent(t, pick(t, "kind", allKinds...), Opts{Text: AnyBytes}), Delta: pick(t, "delta", rapid.Uint32Range(0x10000000, 0xffffffff).Draw(t, "any"), 0x10000000, 0x10000001, 0xffffffff, 0x80000000)}
	}, checkLongDelta)
}
