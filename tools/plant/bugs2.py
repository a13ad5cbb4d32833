TXT = "MThd format:0, metrical time:96 ppqn\\nMTrk\\n%s\\ndelta:0 2F EndOfTrack\\n"
BUGS=[
dict(id='b17-f-flat', property='C05', needs='a note spelled F flat in a text source',
 breaks='F flat is assembled as F natural',
 edits=[('midi/lib/note.go','var F_FLAT = Note{\n	Ord:  4,','var F_FLAT = Note{\n	Ord:  5,')],
 demo='''
f = write('a.txt', "MThd format:0, metrical time:96 ppqn\\nMTrk\\ndelta:0 90 NoteOn channel:0 note:F♭4, velocity:1\\ndelta:0 2F EndOfTrack\\n")
code, out, err = run('assemble', '--out', T + '/a.mid', f)
assert code == 0, out
assert bytes([0x90, 64, 1]) in read('a.mid'), read('a.mid')
'''),
dict(id='b18-noteoff-clamp', property='C10', needs='a NoteOff that is transposed beyond 127',
 breaks='a NoteOff that leaves the range keeps its note while the NoteOn is limited to 127, so that the note hangs',
 edits=[('midi/events/midi/note_off.go','	case v > 127:\n		note = 127\n','	case v > 127:\n		note = e.Note.Value\n')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0x90, 120, 1]), (10, [0x80, 120, 0]), EOT]))
code, out, err = run('transpose', '--semitones', '12', '--out', T + '/b.mid', f)
assert code == 0
assert bytes([0x90, 127, 1]) in read('b.mid') and bytes([0x80, 127, 0]) in read('b.mid'), read('b.mid')
'''),
dict(id='b19-note-cache', property='C12', needs='assembling the same note name under both middle C settings in one process, or two assemblies at once',
 breaks='parsed note names are remembered across operations, whatever the middle C setting',
 edits=[('midi/events/midi/note_on.go','''	re := regexp.MustCompile(`([A-G][♯♭]?)([-]?[0-9])`)

	// ...''','''	re := regexp.MustCompile(`([A-G][♯♭]?)([-]?[0-9])`)

	if n, ok := parsed[s]; ok {
		return n, nil
	}

	// ...'''),('midi/events/midi/note_on.go','''		return Note{
			Value: uint8(value),
			Name:  fmt.Sprintf("%s%d", note.Name, octave),
			Alias: fmt.Sprintf("%s%d", note.Name, octave),
		}, nil''','''		parsed[s] = Note{
			Value: uint8(value),
			Name:  fmt.Sprintf("%s%d", note.Name, octave),
			Alias: fmt.Sprintf("%s%d", note.Name, octave),
		}

		return parsed[s], nil'''),('midi/events/midi/note_on.go','func ParseNote(','var parsed = map[string]Note{}\n\nfunc ParseNote(')],
 demo='''
code, out, err = gorun("""package main
import ("fmt"; "bytes"; "strings"
"github.com/transcriptaze/midiasm/midi/context"
"github.com/transcriptaze/midiasm/midi/lib"
"github.com/transcriptaze/midiasm/ops/assemble")
const src = "MThd format:0, metrical time:96 ppqn\\\\nMTrk\\\\ndelta:0 90 NoteOn channel:0 note:C4, velocity:1\\\\ndelta:0 2F EndOfTrack\\\\n"
func main() {
  a, err := assemble.NewTextAssembler().Assemble(strings.NewReader(src))
  if err != nil { panic(err) }
  context.SetMiddleC(lib.C4)
  b, err := assemble.NewTextAssembler().Assemble(strings.NewReader(src))
  if err != nil { panic(err) }
  fmt.Println(!bytes.Equal(a, b))
}""")
assert out.strip() == 'true', out + err
'''),
dict(id='b20-bpm-truncated', property='C14', needs='a tempo that is not a whole number of beats per minute',
 breaks='the tempo is cut to a whole number of beats per minute instead of rounded',
 edits=[('ops/click/click.go','tempo = uint(math.Round(60.0 * 1000000.0 / float64(v.Tempo)))','tempo = uint(math.Floor(60.0 * 1000000.0 / float64(v.Tempo)))')],
 demo='''
f = write('a.mid', smf(1, 96, [(0, meta(0x51, (461539).to_bytes(3, 'big'))), (96 * 16, meta(0x2f))], [(96 * 16, meta(0x2f))]))
code, out, err = run('click', f)
assert code == 0
assert 'tempo:130' in out and 'tempo:129' not in out, out
'''),
dict(id='b21-delimiter', property='C15', needs='a delimiter that is not ASCII',
 breaks='the columns are separated by the first byte of the delimiter',
 edits=[('commands/tsv.go',"return writeTSV(header, records, []rune(t.delimiter)[0], f)","return writeTSV(header, records, rune(t.delimiter[0]), f)")],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0x90, 60, 1]), EOT]))
code, out, err = run('tsv', '--delimiter', '♪', '--out', T + '/a.tsv', f)
assert code == 0, out
assert read('a.tsv').decode().count('♪') > 10, read('a.tsv')
'''),
dict(id='b22-eot-any-track', property='C18', needs='a file in which a later track has no EndOfTrack but an earlier one does',
 breaks='a missing EndOfTrack goes unreported if an earlier track has one',
 edits=[('midi/smf.go','''	for _, track := range smf.Tracks {
		eot := false
''','''	eot := false
	for _, track := range smf.Tracks {
''')],
 demo='''
f = write('a.mid', smf(1, 480, [EOT], [(0, [0x90, 60, 1])]))
code, out, err = run(f)
assert code == 0
assert 'Track 1: missing EndOfTrack' in err, err
'''),
dict(id='b23-subframes', property='C20', needs='a SMPTE division with 64 or more sub-frames other than the tested ones',
 breaks='the header shows the wrong number of sub-frames',
 edits=[('midi/MThd.go','mthd.SubFrames = mthd.Division & 0x00ff','mthd.SubFrames = mthd.Division & 0x006f')],
 demo='''
f = write('a.mid', smf(0, 0xe750, [EOT]))
code, out, err = run(f)
assert code == 0
assert 'SMPTE:25 fps,80 sub-frames' in out, out
'''),
dict(id='b24-smpte-unmarshal', property='C24', needs='unmarshalling a single SMPTE offset event at 29 (drop frame) fps from its binary form',
 breaks='the frame rate of a single event differs from that of the same event in a file',
 edits=[('midi/events/meta/smpte_offset.go','''		framerate := uint8(0)
		switch rr {
		case 0:
			framerate = 24
		case 1:
			framerate = 25
		case 2:
			framerate = 29
		case 3:''','''		framerate := uint8(0)
		switch rr {
		case 0:
			framerate = 24
		case 1:
			framerate = 25
		case 2:
			framerate = 30
		case 3:''')],
 demo='''
code, out, err = gorun("""package main
import ("fmt"
"github.com/transcriptaze/midiasm/midi/events/meta")
func main() {
  var e metaevent.SMPTEOffset
  if err := e.UnmarshalBinary([]byte{0, 0xff, 0x54, 5, 0x4d, 45, 59, 7, 39}); err != nil { panic(err) }
  fmt.Println(e.FrameRate)
}""")
assert out.strip() == '29', out + err
'''),
dict(id='b25-controller-name', property='C26', needs='controller 40',
 breaks='a controller is shown with the name of another',
 edits=[('midi/lib/controller.go','40: Controller{40, "Balance (LSB)"}','40: Controller{40, "Pan (LSB)"}')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0xb0, 40, 1]), EOT]))
code, out, err = run(f)
assert code == 0 and '40/Balance (LSB)' in out, out
'''),
dict(id='b26-marker-trim', property='C03', needs='a marker that ends with a space',
 breaks='trailing spaces of a marker are lost when a disassembly is assembled',
 edits=[('midi/events/meta/marker.go',r'Marker\s+(.*)`)',r'Marker\s+(.*?)\s*$`)')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, meta(6, b'verse ')), EOT]))
assert run('--out', T + '/a.txt', f)[0] == 0
assert run('assemble', '--out', T + '/b.mid', T + '/a.txt')[0] == 0
assert read('a.mid') == read('b.mid'), read('b.mid')
'''),
dict(id='b27-one-flat', property='C16', needs='a key signature with exactly one flat',
 breaks='notes in F major and D minor are named with sharps',
 edits=[('midi/MTrk.go','if k.Accidentals < 0 {','if k.Accidentals < -1 {')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, meta(0x59, b'\\xff\\x00')), (0, [0x90, 70, 1]), EOT]))
code, out, err = run(f)
assert code == 0 and 'note:B♭4' in out, out
'''),
dict(id='b28-note-twice', property='C11', needs='a note ended by a NoteOn with velocity 0 and then a NoteOff for the same note',
 breaks='a note that was ended by a NoteOn with velocity 0 is listed again at a later NoteOff',
 edits=[('ops/notes/notes.go','''				delete(pending[v.Channel], v.Note.Value)
			} else {
				warnf("NoteOff without preceding NoteOn for %d:%02X", v.Channel, v.Note)
			}
		}

		if v, ok := e.event.(midievent.NoteOff); ok {''','''				if i+1 < len(events) && events[i+1].tick == e.tick {
					delete(pending[v.Channel], v.Note.Value)
				}
			} else {
				warnf("NoteOff without preceding NoteOn for %d:%02X", v.Channel, v.Note)
			}
		}

		if v, ok := e.event.(midievent.NoteOff); ok {''')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0x90, 70, 1]), (480, [0x90, 70, 0]), (480, [0x80, 70, 0]), EOT]))
code, out, err = run('notes', f)
assert code == 0 and out.count('note:46') == 1, out
'''),
dict(id='b29-read-fault', property='C13', needs='an input that fails part of the way at a line boundary',
 breaks='the text assembler assembles what it could read and reports success',
 edits=[('ops/assemble/text.go','''	if err := scanner.Err(); err != nil {
		return nil, err
	}
''','''	if err := scanner.Err(); err != nil && len(list) == 0 {
		return nil, err
	}
''')],
 demo='''
code, out, err = gorun("""package main
import ("fmt"; "io"; "strings"; "testing/iotest"; "errors"
"github.com/transcriptaze/midiasm/ops/assemble")
const src = "MThd format:0, metrical time:96 ppqn\\\\nMTrk\\\\ndelta:0 90 NoteOn channel:0 note:C4, velocity:1\\\\n"
func main() {
  _, err := assemble.NewTextAssembler().Assemble(io.MultiReader(strings.NewReader(src), iotest.ErrReader(errors.New("disk"))))
  fmt.Println(err != nil)
}""")
assert out.strip() == 'true', out + err
'''),
dict(id='b30-split-hex', property='C19', needs='a file of more than ten tracks',
 breaks='the split files of tracks from ten on have names in hexadecimal',
 edits=[('commands/disassemble.go','fmt.Sprintf("%s-%d.MTrk", base, mtrk.TrackNumber)','fmt.Sprintf("%s-%x.MTrk", base, uint(mtrk.TrackNumber))')],
 demo='''
f = write('a.mid', smf(1, 480, *[[EOT]] * 12))
code, out, err = run('--split', f)
assert code == 0 and os.path.exists(T + '/a-11.MTrk'), os.listdir(T)
'''),
dict(id='b31-extra-tracks', property='C09', needs='a file with more tracks than its header says',
 breaks='a file with more tracks than its header says is accepted',
 edits=[('encoding/midi/decoder.go','if len(smf.Tracks) != int(smf.MThd.Tracks) {','if len(smf.Tracks) < int(smf.MThd.Tracks) {')],
 demo='''
b = bytearray(smf(1, 480, [EOT], [EOT]))
b[11] = 1
code, out, err = run(write('a.mid', bytes(b)))
assert code != 0
'''),
dict(id='b32-smpte-hour', property='C02', needs='a SMPTE offset of 16 hours or more',
 breaks='the hour of a SMPTE offset loses its top bit when encoded',
 edits=[('midi/events/meta/smpte_offset.go','encoded[3] = rr | s.Hour&0x1f','encoded[3] = rr | s.Hour&0x0f')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, meta(0x54, bytes([0x20 | 23, 1, 2, 3, 4]))), EOT]))
assert run('transpose', '--out', T + '/b.mid', f)[0] == 0
assert read('a.mid') == read('b.mid'), read('b.mid')
'''),
dict(id='b33-export-mode', property='C22', needs='a key signature of a minor key in an export',
 breaks='the JSON export shows key-type 0 for a minor key with an even number of accidentals',
 edits=[('midi/events/meta/key_signature.go','		KeyType:     e.KeyType,\n		Key:         e.Key,\n	}\n\n	return json','		KeyType:     e.KeyType & lib.KeyType(e.Accidentals&1),\n		Key:         e.Key,\n	}\n\n	return json')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, meta(0x59, b'\\x02\\x01')), EOT]))
code, out, err = run('export', f)
assert code == 0
assert '"key-type": 1' in out, out
'''),
dict(id='b34-exit-zero', property='C21', needs='a malformed MIDI file given to the tsv command',
 breaks='tsv exits with 0 and no output for a malformed file',
 edits=[('commands/tsv.go','''	} else if smf, err := t.decode(bytes.NewBuffer(b)); err != nil {
		return err''','''	} else if smf, err := t.decode(bytes.NewBuffer(b)); err == io.ErrUnexpectedEOF {
		return nil
	} else if err != nil {
		return err''')],
 demo='''
f = write('a.mid', smf(0, 480, [(0, [0x90, 60, 1]), EOT])[:-3])
code, out, err = run('tsv', f)
assert code != 0
'''),
dict(id='b35-json-assembler-eof', property='C08', needs='a JSON source with a track that has no tag',
 breaks='the assembler panics on a track without a tag',
 edits=[('ops/assemble/json.go','if track.Tag == nil || *track.Tag != "MTrk" {','if *track.Tag != "MTrk" {')],
 demo='''
f = write('a.json', '{"header": {"tag": "MThd", "format": 0, "PPQN": 96, "division": 96}, "tracks": [{"events": []}]}')
code, out, err = run('assemble', '--out', T + '/a.mid', f)
assert code == 1 and 'panic' not in err + out, err
'''),
dict(id='b36-vlq5', property='C01', needs='a variable length quantity written with four bytes, the first of them padding',
 breaks='a delta that is padded to four bytes is rejected',
 edits=[('midi/events/midi/midievent.go','''	for i, b := range bytes {
		if i >= 4 {
			break
		}
''','''	for i, b := range bytes {
		if i >= 3 {
			break
		}
''')],
 demo='''
f = write('a.mid', smf(0, 480, [(0x0fffffff, [0x90, 60, 1]), EOT]))
code, out, err = run(f)
assert code == 0, out
'''),
]
