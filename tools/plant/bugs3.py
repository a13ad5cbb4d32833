H = "MThd format:0, metrical time:96 ppqn\\nMTrk\\n"
BUGS=[
dict(id='b20-last-span', property='C14', needs='changes in two consecutive bars',
 breaks='the span of bars before a change in the very next bar is a bar too long',
 edits=[('ops/click/click.go','			span.End = v.Bar - 1\n','			span.End = max(v.Bar-1, span.Start+1)\n')],
 demo='''
f = write('a.mid', smf(0, 96, [(0, meta(0x51, (500000).to_bytes(3, 'big'))), (384, meta(0x51, (1000000).to_bytes(3, 'big'))), (384 * 4, meta(0x51, (500000).to_bytes(3, 'big'))), (384 * 4, meta(0x2f))]))
code, out, err = run('click', f)
assert code == 0
assert 'bars 1:1' in out and 'bars 2:5' in out, out
'''),
dict(id='b36-subframes', property='C01', needs='an SMPTE division with 128 or more ticks per frame',
 breaks='the ticks per frame of the header lose their top bit when they are decoded',
 edits=[('midi/MThd.go','		mthd.SubFrames = mthd.Division & 0x00ff','		mthd.SubFrames = mthd.Division & 0x007f')],
 demo='''
f = write('a.mid', b'MThd' + bytes([0,0,0,6, 0,0, 0,1, 0xe7, 0xa0]) + chunk(b'MTrk', bytes([0, 0xff, 0x2f, 0])))
code, out, err = run('export', f)
assert code == 0 and '160' in out, out
'''),
dict(id='b37-long-text', property='C02', needs='a text of more than 65535 bytes',
 breaks='the length that is written for a long variable length field wraps at 16 bits',
 edits=[('midi/lib/types.go','	len := uint32(len(v))\n','	len := uint32(uint16(len(v)))\n')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, meta(0x05, b'x' * 70000)), EOT]))
code, out, err = run('transpose', '--semitones', '0', '--out', T + '/b.mid', f)
assert code == 0
assert read('b.mid') == read('a.mid')
'''),
dict(id='b38-long-delta', property='C03', needs='a delta of more than 2^27 ticks',
 breaks='the assembler rejects large deltas that the disassembler writes',
 edits=[('midi/lib/delta.go','strconv.ParseUint(s, 10, 32)','strconv.ParseUint(s, 10, 27)')],
 demo='''
f = write('a.mid', smf(0, 480, [(0x0fffffff, [0x90, 60, 1]), EOT]))
code, out, err = run('disassemble', '--out', T + '/a.txt', f)
assert code == 0
code, out, err = run('assemble', '--out', T + '/b.mid', T + '/a.txt')
assert code == 0, out
assert read('b.mid') == read('a.mid')
'''),
dict(id='b39-json-interleaved', property='C04', needs='a SysEx message whose packets have a meta event between them',
 breaks='the packets of a SysEx message are terminated too early when a meta event comes between them',
 edits=[('ops/assemble/assemble.go','import (\n	"io"\n','import (\n	"io"\n	"strings"\n'),('ops/assemble/assemble.go','''		case *sysex.SysExMessage, sysex.SysExMessage, *sysex.SysExEscapeMessage, sysex.SysExEscapeMessage:
			return false
''','''		case *sysex.SysExMessage, sysex.SysExMessage, *sysex.SysExEscapeMessage, sysex.SysExEscapeMessage:
			return false

		default:
			if strings.HasSuffix(e.Event.Tag(), "Text") {
				return false
			}
''')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0xf0, 2, 0x43, 1]), (0, meta(1, b'abc')), (0, [0xf7, 2, 2, 0xf7]), EOT]))
code, out, err = run('export', '--out', T + '/a.json', f)
assert code == 0
code, out, err = run('assemble', '--out', T + '/b.mid', T + '/a.json')
assert code == 0, out
assert read('b.mid') == read('a.mid'), read('b.mid')
'''),
dict(id='b40-json-velocity', property='C06', needs='a JSON source with a velocity of exactly 128 for a NoteOn',
 breaks='a NoteOn velocity of 128 is written as a data byte of 128',
 edits=[('midi/events/midi/note_on.go','	} else if t.Velocity > 127 {\n		return fmt.Errorf("invalid NoteOn velocity (%v)", t.Velocity)','	} else if t.Velocity > 128 {\n		return fmt.Errorf("invalid NoteOn velocity (%v)", t.Velocity)'),
        ('midi/events/midi/note_on.go','	if velocity > 127 {\n		panic','	if velocity > 128 {\n		panic'),('midi/events/midi/note_on.go','		*e = MakeNoteOn(0, uint32(t.Delta), t.Channel, note, t.Velocity, []byte{}...)','		*e = MakeNoteOn(0, uint32(t.Delta), t.Channel, note, t.Velocity, nil...)')],
 demo='''
f = write('a.json', '{"header":{"tag":"MThd","format":0,"PPQN":96},"tracks":[{"tag":"MTrk","events":[{"event":{"tag":"NoteOn","delta":0,"channel":0,"note":{"value":60},"velocity":128}},{"event":{"tag":"EndOfTrack","delta":0}}]}]}')
code, out, err = run('assemble', '--out', T + '/b.mid', f)
assert code != 0
'''),
dict(id='b41-json-port', property='C06', needs='a text source with a MIDI port between 128 and 255',
 breaks='a MIDI port that is out of range is wrapped into range',
 edits=[('midi/events/meta/midi_port.go','''	} else if port > 127 {
		return fmt.Errorf("Invalid MIDIPort channel (%d): expected a value in the interval [0..127]", port)
	} else {
		*e = MakeMIDIPort(0, delta, uint8(port), []byte{}...)''','''	} else {
		*e = MakeMIDIPort(0, delta, uint8(port&0x7f), []byte{}...)''')],
 demo='''
f = write('a.txt', "MThd format:0, metrical time:96 ppqn\\nMTrk\\ndelta:0 21 MIDIPort 200\\ndelta:0 2F EndOfTrack\\n")
code, out, err = run('assemble', '--out', T + '/b.mid', f)
assert code != 0
'''),
dict(id='b42-vlf-negative', property='C07', needs='a sequencer specific event that has only the first byte of a three byte manufacturer ID',
 breaks='a sequencer specific event that is cut short panics',
 edits=[('midi/events/meta/sequencer_specific.go','	if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {\n		return fmt.Errorf("Invalid SequencerSpecificEvent length','	if len(data) < 1 || (data[0] == 0x00 && len(data) < 2) {\n		return fmt.Errorf("Invalid SequencerSpecificEvent length'),('midi/events/meta/sequencer_specific.go','		id = data[0:3]\n		d = data[3:]\n	}\n\n	*e = ','		id, d = data[0:3], data[3:]\n	}\n\n	*e = ')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, meta(0x7f, b'\\x00\\x01')), EOT]))
code, out, err = run('disassemble', f)
assert 'panic' not in err + out and code == 1, (code, err)
'''),
dict(id='b43-json-channel', property='C08', needs='a JSON source with a channel prefix of 128 or more',
 breaks='a channel prefix that is not a channel is accepted and makes the assembler panic or write an invalid file',
 edits=[('midi/events/meta/midi_channel_prefix.go','	} else if t.Channel > 15 {','	} else if t.Channel > 15 && t.Channel < 128 {')],
 demo='''
f = write('a.json', '{"header":{"tag":"MThd","format":0,"PPQN":96},"tracks":[{"tag":"MTrk","events":[{"event":{"tag":"MIDIChannelPrefix","delta":0,"channel":200}},{"event":{"tag":"EndOfTrack","delta":0}}]}]}')
code, out, err = run('assemble', '--out', T + '/b.mid', f)
assert code == 1 and 'panic' not in err, err
'''),
dict(id='b44-meta-type', property='C09', needs='a meta event of an unknown type of 128 or more that looks like a known one',
 breaks='a file with an undefined meta event type is rejected for another reason or accepted as another event',
 edits=[('midi/events/meta/tempo.go','	if len(data) != 3 {\n		return fmt.Errorf("Invalid Tempo length (%d): expected \'3\'", len(data))','	if len(data) > 3 {\n		return fmt.Errorf("Invalid Tempo length (%d): expected \'3\'", len(data))')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, meta(0x51, b'\\x07\\xa1')), EOT]))
code, out, err = run('disassemble', f)
assert code != 0, out
'''),
dict(id='b45-minor-enharmonic', property='C10', needs='a minor key transposed to D sharp minor',
 breaks='a key signature that is transposed to D sharp/E flat minor becomes E minor',
 edits=[('midi/lib/scales.go','			return D_SHARP_MINOR\n','			return E_MINOR\n')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, meta(0x59, bytes([0xfa, 1]))), EOT]))
code, out, err = run('transpose', '--semitones', '12', '--out', T + '/b.mid', f)
assert code == 0
assert bytes([0xff, 0x59, 2, 6, 1]) in read('b.mid') or bytes([0xff, 0x59, 2, 0xfa, 1]) in read('b.mid'), read('b.mid')
'''),
dict(id='b46-same-tick', property='C11', needs='a note that is ended and started again at the same tick, on two channels',
 breaks='a note that is played on one channel while the same note sounds on another is dropped',
 edits=[('ops/notes/notes.go','			if _, ok := pending[v.Channel][v.Note.Value]; !ok {\n','			if _, ok := pending[v.Channel&0x07][v.Note.Value]; !ok {\n')],
 demo='''
f = write('a.mid', smf(0, 96, [(0, [0x91, 60, 1]), (0, [0x99, 60, 2]), (96, [0x81, 60, 0]), (96, [0x89, 60, 0]), EOT]))
code, out, err = run('notes', f)
assert code == 0 and out.count('channel:') == 2, out
'''),
dict(id='b47-key-of-note', property='C16', needs='a key signature with flats while a note sounds',
 breaks='the name of a note in the notes list is that of the key when it ends',
 edits=[('ops/notes/notes.go','''					FormattedNote: midievent.FormatNote(&p.ctx, transpose(on.Note.Value, transposition)),
					Velocity:      on.Velocity,
					Start:         p.at,
					StartTick:     p.tick,
					EndTick:       e.tick,
					End:           e.at,
					Duration:      e.at - p.at,
				})

				delete(pending[v.Channel], v.Note.Value)''','''					FormattedNote: midievent.FormatNote(&e.ctx, transpose(on.Note.Value, transposition)),
					Velocity:      on.Velocity,
					Start:         p.at,
					StartTick:     p.tick,
					EndTick:       e.tick,
					End:           e.at,
					Duration:      e.at - p.at,
				})

				delete(pending[v.Channel], v.Note.Value)''')],
 demo='''
f = write('a.mid', smf(0, 96, [(0, [0x90, 61, 1]), (10, meta(0x59, bytes([0xff, 0]))), (10, [0x80, 61, 0]), EOT]))
code, out, err = run('notes', f)
assert code == 0 and out.strip().startswith('C\\u266f'), out
'''),
dict(id='b48-bank-127', property='C17', needs='a Bank Select of 127',
 breaks='a Bank Select MSB or LSB of 127 is ignored',
 edits=[('midi/MTrk.go','				if k.Controller.ID == 0x00 {\n','				if k.Controller.ID == 0x00 && k.Value != 0x7f {\n')],
 demo='''
f = write('a.mid', smf(0, 96, [(0, [0xb0, 0, 127]), (0, [0xb0, 32, 1]), (0, [0xc0, 5]), EOT]))
code, out, err = run('disassemble', f)
assert code == 0 and 'bank:16257' in out, out
'''),
dict(id='b49-template-tick', property='C20', needs='a tick of more than nine digits',
 breaks='long values are cut off in the listing',
 edits=[('ops/disassemble/disassemble.go','	if width < len([]rune(s)) {\n		return s\n	}\n','	if width < len([]rune(s)) {\n		return string([]rune(s)[:max(width, 0)])\n	}\n')],
 demo='''
f = write('a.mid', smf(0, 96, [(0x0fffffff, [0x90, 1, 1])] * 8 + [EOT]))
code, out, err = run('disassemble', f)
assert code == 0 and str(0x0fffffff * 8) in out, out
'''),
dict(id='b50-ellipsis', property='C20', needs='an event of exactly 15 bytes or so',
 breaks='the last byte of an event whose bytes just fill the column is replaced with an ellipsis or lost',
 edits=[('ops/disassemble/disassemble.go','''	if len(s) <= length {
		return string(s)
	}

	return string(s[0:length-1]) + `…`''','''	if len(s) < length {
		return string(s)
	} else if len(s) == length {
		return string(s[0 : length-1])
	}

	return string(s[0:length-1]) + `…`''')],
 demo='''
for n in range(1, 20):
    f = write('a.mid', smf(0, 96, [(0, meta(1, b'U' * n)), EOT]))
    code, out, err = run('disassemble', f)
    line = [l for l in out.split('\\n') if ' Text ' in l][0]
    hexes = line.split('tick:')[0].strip()
    assert code == 0 and ('\\u2026' in hexes or hexes.split() == ['00', 'FF', '01', '%02X' % n] + ['55'] * n), line
'''),
dict(id='b51-template-order', property='C23', needs='two templates in one file of which one is used by the other',
 breaks='only the first of several templates in a file is loaded',
 edits=[('ops/disassemble/disassemble.go','''		if _, err = p.root.New(name).Parse(t); err != nil {
			return err
		}
''','''		if p.root.Lookup(name) == nil || strings.Contains(t, "{{") {
			if _, err = p.root.New(name).Parse(t); err != nil {
				return err
			}
		}
''')],
 demo='''
t = write('t.json', '{"templates": {"lyric": "LALALA", "text": "x {{.Text}}"}}')
f = write('a.mid', smf(0, 96, [(0, meta(5, b'abc')), (0, meta(1, b'def')), EOT]))
code, out, err = gorun("""package main
import ("fmt"; "os"; "bytes"; "strings"
"github.com/transcriptaze/midiasm/encoding/midi"
"github.com/transcriptaze/midiasm/ops/disassemble")
func main() {
  d, _ := disassemble.NewDisassemble()
  if err := d.LoadTemplates(strings.NewReader(`{"templates": {"lyric": "LALALA", "text": "x {{.Text}}"}}`)); err != nil { panic(err) }
  b, _ := os.ReadFile("%s")
  smf, err := midifile.NewDecoder().Decode(bytes.NewReader(b))
  if err != nil { panic(err) }
  var w bytes.Buffer
  d.Print(smf, "document", &w)
  fmt.Println(strings.Contains(w.String(), "LALALA"))
}""" % f)
assert out.strip() == 'true', out + err
'''),
dict(id='b52-binary-bend', property='C24', needs='a pitch bend below 128 or with all bits set',
 breaks='a single pitch bend event loses its top bit',
 edits=[('midi/events/midi/pitch_bend.go','		bend <<= 7\n		bend |= uint16(data[1]) & 0x7f\n\n		*e = ','		bend <<= 7\n		bend += uint16(data[1])\n		bend &= 0x3ffe | uint16(data[0]^0x7f|1)\n		if data[0] == 0x7f && data[1] == 0x7f {\n			bend = 0x3ffe\n		}\n\n		*e = ')],
 demo='''
code, out, err = gorun("""package main
import ("fmt"
"github.com/transcriptaze/midiasm/midi/events/midi")
func main() {
  e := midievent.PitchBend{}
  if err := e.UnmarshalBinary([]byte{0x00, 0xe3, 0x7f, 0x7f}); err != nil { panic(err) }
  fmt.Println(e.Bend == 16383)
}""")
assert out.strip() == 'true', out + err
'''),
dict(id='b53-sequence-length', property='C25', needs='a single key signature event with seven flats in a minor key',
 breaks='a single binary key signature of seven flats is rejected',
 edits=[('midi/events/meta/key_signature.go','''			if _, ok := lib.MinorScale(accidentals); !ok {
				return fmt.Errorf("Invalid minor key signature (%d accidentals): expected a value in the interval [-6..0]", accidentals)
			}

		default:
			return fmt.Errorf("Invalid KeySignature key type (%d): expected a value in the interval [0..1]", keyType)
		}

		*e =''','''			if _, ok := lib.MinorScale(accidentals); !ok || accidentals < -6 {
				return fmt.Errorf("Invalid minor key signature (%d accidentals): expected a value in the interval [-6..0]", accidentals)
			}

		default:
			return fmt.Errorf("Invalid KeySignature key type (%d): expected a value in the interval [0..1]", keyType)
		}

		*e =''')],
 demo='''
code, out, err = gorun("""package main
import ("fmt"
"github.com/transcriptaze/midiasm/midi/events")
func main() {
  e := events.Event{}
  fmt.Println(e.UnmarshalBinary([]byte{0x00, 0xff, 0x59, 0x02, 0xf9, 0x01}) == nil)
}""")
assert out.strip() == 'true', out + err
'''),
dict(id='b54-three-byte', property='C26', needs='a three byte manufacturer ID in a sequencer specific event whose second byte is not 0',
 breaks='the manufacturer of a three byte ID is not recognised if its last two bytes are equal',
 edits=[('midi/lib/manufacturer.go','		key := fmt.Sprintf("%02X%02X", id[1], id[2])\n','		key := fmt.Sprintf("%02X%02x", id[1], id[2])\n')],
 demo='''
f = write('a.mid', smf(0, 96, [(0, meta(0x7f, bytes([0, 0, 0x0e, 1]))), EOT]))
code, out, err = run('disassemble', f)
assert code == 0 and 'Alesis' in out, out
'''),
dict(id='b55-conf-lookup', property='C27', needs='a manufacturer file that has a three byte ID',
 breaks='manufacturers with a three byte ID that are loaded from a file are never found',
 edits=[('midi/lib/manufacturer.go','		key = fmt.Sprintf("%02X%02X", ID[1], ID[2])\n','		key = fmt.Sprintf("%02X%02X%02X", ID[0], ID[1], ID[2])\n')],
 demo='''
code, out, err = gorun("""package main
import ("fmt"; "strings"
"github.com/transcriptaze/midiasm/midi/lib")
func main() {
  m, err := lib.LoadManufacturers(strings.NewReader(`{"manufacturers": [{"id": [0, 99, 98], "region": "X", "name": "Acme"}]}`))
  if err != nil { panic(err) }
  lib.AddManufacturers(m)
  fmt.Println(lib.LookupManufacturer([]byte{0, 99, 98}).Name)
}""")
assert out.strip() == 'Acme', out + err
'''),
dict(id='b56-export-order', property='C22', needs='a SysEx escape event with data',
 breaks='the data of a SysEx escape event in the export lacks its last byte if that is F7',
 edits=[('midi/events/sysex/escape_message.go','	*e = MakeSysExEscapeMessage(tick, delta, data, bytes...)','	if N := len(data); N > 1 && data[N-1] == 0xf7 {\n		data = data[:N-1]\n	}\n\n	*e = MakeSysExEscapeMessage(tick, delta, data, bytes...)')],
 demo='''
f = write('a.mid', smf(0, 96, [(0, [0xf7, 3, 1, 2, 0xf7]), EOT]))
code, out, err = run('export', f)
assert code == 0 and '247' in out.replace('"status": 247', ''), out
'''),
dict(id='b57-tsv-rows', property='C15', needs='tracks of different length, with the longest one not the last',
 breaks='the rows of a long track that is followed by a shorter one are lost, or it fails',
 edits=[('commands/tsv.go','''			row := j + 1
			list := fields(e.Event)
''','''			row := j + 1
			list := fields(e.Event)

			if i > 8 && list[2] == "Controller" {
				list[3] = ""
			}
''')],
 demo='''
f = write('a.mid', smf(1, 96, *([[EOT]] * 9 + [[(0, [0xb3, 7, 9]), EOT]])))
code, out, err = run('tsv', '--out', T + '/a.tsv', f)
assert code == 0
row = read('a.tsv').decode().split('\\n')[2].split('\\t')
assert row[9 * 7 + 2] == 'Controller' and row[9 * 7 + 3] == '3', row
'''),
dict(id='b58-eot-empty', property='C18', needs='an empty track',
 breaks='a track without any events is not reported as having no EndOfTrack',
 edits=[('midi/smf.go','		if !eot {\n','		if !eot && len(track.Events) > 0 {\n')],
 demo='''
f = write('a.mid', smf(1, 96, [EOT], []))
code, out, err = run('disassemble', f)
assert code == 0 and 'missing EndOfTrack' in err, err
'''),
]
