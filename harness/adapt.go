package harness

import (
	"bytes"
	"fmt"
	"io"

	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/events"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
)

func decode(b []byte) (*midi.SMF, error) {
	return midifile.NewDecoder().Decode(bytes.NewReader(b))
}

func decodeFrom(r io.Reader) (*midi.SMF, error) {
	return midifile.NewDecoder().Decode(r)
}

func reencode(smf *midi.SMF) ([]byte, error) {
	var b bytes.Buffer
	err := midifile.NewEncoder(&b).Encode(*smf)
	return b.Bytes(), err
}

// Info is what the tree under test says about an event over and above the model.
type Info struct {
	Tick   uint64
	Tag    string
	Raw    []byte
	Status int
	Note   string // NoteOn, NoteOff
	Alias  string
	Bank   int    // ProgramChange
	Key    string // KeySignature
	Name   string // controller or manufacturer name
	Region string
}

func adaptEvent(x events.IEvent) (Ev, Info, error) {
	e := Ev{Kind: x.Tag(), Delta: x.Delta()}
	n := Info{Tick: x.Tick(), Tag: x.Tag(), Raw: x.Bytes(), Status: -1}
	kind := ""
	switch v := x.(type) {
	case metaevent.SequenceNumber:
		kind, e.V, n.Status = "SequenceNumber", []int{int(v.SequenceNumber)}, int(v.Status)
	case metaevent.Text:
		kind, e.D, n.Status = "Text", []byte(v.Text), int(v.Status)
	case metaevent.Copyright:
		kind, e.D, n.Status = "Copyright", []byte(v.Copyright), int(v.Status)
	case metaevent.TrackName:
		kind, e.D, n.Status = "TrackName", []byte(v.Name), int(v.Status)
	case metaevent.InstrumentName:
		kind, e.D, n.Status = "InstrumentName", []byte(v.Name), int(v.Status)
	case metaevent.Lyric:
		kind, e.D, n.Status = "Lyric", []byte(v.Lyric), int(v.Status)
	case metaevent.Marker:
		kind, e.D, n.Status = "Marker", []byte(v.Marker), int(v.Status)
	case metaevent.CuePoint:
		kind, e.D, n.Status = "CuePoint", []byte(v.CuePoint), int(v.Status)
	case metaevent.ProgramName:
		kind, e.D, n.Status = "ProgramName", []byte(v.Name), int(v.Status)
	case metaevent.DeviceName:
		kind, e.D, n.Status = "DeviceName", []byte(v.Name), int(v.Status)
	case metaevent.MIDIChannelPrefix:
		kind, e.V, n.Status = "MIDIChannelPrefix", []int{int(v.Channel)}, int(v.Status)
	case metaevent.MIDIPort:
		kind, e.V, n.Status = "MIDIPort", []int{int(v.Port)}, int(v.Status)
	case metaevent.EndOfTrack:
		kind, n.Status = "EndOfTrack", int(v.Status)
	case metaevent.Tempo:
		kind, e.V, n.Status = "Tempo", []int{int(v.Tempo)}, int(v.Status)
	case metaevent.SMPTEOffset:
		kind, e.V, n.Status = "SMPTEOffset", []int{int(v.Hour), int(v.Minute), int(v.Second), int(v.FrameRate), int(v.Frames), int(v.FractionalFrames)}, int(v.Status)
	case metaevent.TimeSignature:
		kind, e.V, n.Status = "TimeSignature", []int{int(v.Numerator), int(v.Denominator), int(v.TicksPerClick), int(v.ThirtySecondsPerQuarter)}, int(v.Status)
	case metaevent.KeySignature:
		kind, e.V, n.Status = "KeySignature", []int{int(v.Accidentals), int(v.KeyType)}, int(v.Status)
		n.Key = v.Key
	case metaevent.SequencerSpecificEvent:
		kind, e.M, e.D, n.Status = "SequencerSpecificEvent", v.Manufacturer.ID, v.Data, int(v.Status)
		n.Name, n.Region = v.Manufacturer.Name, v.Manufacturer.Region
	case midievent.NoteOn:
		kind, e.Ch, e.V, n.Status = "NoteOn", int(v.Channel), []int{int(v.Note.Value), int(v.Velocity)}, int(v.Status)
		n.Note, n.Alias = v.Note.Name, v.Note.Alias
	case midievent.NoteOff:
		kind, e.Ch, e.V, n.Status = "NoteOff", int(v.Channel), []int{int(v.Note.Value), int(v.Velocity)}, int(v.Status)
		n.Note, n.Alias = v.Note.Name, v.Note.Alias
	case midievent.PolyphonicPressure:
		kind, e.Ch, e.V, n.Status = "PolyphonicPressure", int(v.Channel), []int{int(v.Pressure)}, int(v.Status)
	case midievent.Controller:
		kind, e.Ch, e.V, n.Status = "Controller", int(v.Channel), []int{int(v.Controller.ID), int(v.Value)}, int(v.Status)
		n.Name = v.Controller.Name
	case midievent.ProgramChange:
		kind, e.Ch, e.V, n.Status = "ProgramChange", int(v.Channel), []int{int(v.Program)}, int(v.Status)
		n.Bank = int(v.Bank)
	case midievent.ChannelPressure:
		kind, e.Ch, e.V, n.Status = "ChannelPressure", int(v.Channel), []int{int(v.Pressure)}, int(v.Status)
	case midievent.PitchBend:
		kind, e.Ch, e.V, n.Status = "PitchBend", int(v.Channel), []int{int(v.Bend)}, int(v.Status)
	case sysex.SysExMessage:
		kind, e.M, e.D, e.End, n.Status = "SysExMessage", v.Manufacturer.ID, v.Data, v.Single, int(v.Status)
		n.Name, n.Region = v.Manufacturer.Name, v.Manufacturer.Region
	case sysex.SysExContinuationMessage:
		kind, e.D, e.End, n.Status = "SysExContinuation", v.Data, v.End, int(v.Status)
	case sysex.SysExEscapeMessage:
		kind, e.D, n.Status = "SysExEscape", v.Data, int(v.Status)
	default:
		return e, n, fmt.Errorf("unexpected event type %T", x)
	}
	if kind != e.Kind {
		return e, n, fmt.Errorf("event type %s has tag %q", kind, e.Kind)
	}
	return e, n, nil
}

// adapt converts a decoded file to the model.
func adapt(smf *midi.SMF) (File, [][]Info, error) {
	f := File{Format: int(smf.MThd.Format), Division: int(smf.MThd.Division)}
	infos := [][]Info{}
	for i, t := range smf.Tracks {
		list, info := []Ev{}, []Info{}
		for j, x := range t.Events {
			e, n, err := adaptEvent(x.Event)
			if err != nil {
				return f, nil, fmt.Errorf("track %d, event %d: %w", i, j, err)
			}
			list, info = append(list, e), append(info, n)
		}
		f.Tracks = append(f.Tracks, list)
		infos = append(infos, info)
	}
	return f, infos, nil
}
